//! A global allocator that watches: each block remembers its size and alignment, and freeing it as another, or twice, is recorded.
//! In use in the build with the feature "watch" only.
#![allow(dead_code)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Watch;

static LIVE: AtomicI64 = AtomicI64::new(0);
static FREED: AtomicU64 = AtomicU64::new(0);
static BAD: AtomicU64 = AtomicU64::new(0);
static BAD_HOW: AtomicU64 = AtomicU64::new(0); // 1: another layout; 2: not a live block
static BAD_WAS: AtomicU64 = AtomicU64::new(0);
static BAD_AS: AtomicU64 = AtomicU64::new(0);

const MAGIC: u64 = 0x6d65_6e74_6174_0100;
const DEAD: u64 = 0xdead_6e74_6174_0200;

unsafe fn head(p: *mut u8) -> *mut [u64; 2] { p.sub(16) as *mut [u64; 2] }
fn off(align: usize) -> usize { if align > 16 { align } else { 16 } }
fn code(l: &Layout) -> u64 { (l.size() as u64) << 8 | l.align().trailing_zeros() as u64 }

fn complain(how: u64, was: u64, as_: u64) {
    if BAD.fetch_add(1, Relaxed) == 0 { BAD_HOW.store(how, Relaxed); BAD_WAS.store(was, Relaxed); BAD_AS.store(as_, Relaxed); }
}

/// The layout this block has, if it's live.
unsafe fn check(p: *mut u8, l: Layout) -> Option<Layout> {
    let h = *head(p);
    if h[0] != MAGIC { complain(2, h[1], code(&l)); return None; }
    if h[1] != code(&l) { complain(1, h[1], code(&l)); }
    Layout::from_size_align((h[1] >> 8) as usize, 1 << (h[1] & 0xff)).ok()
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let o = off(l.align());
        let b = System.alloc(Layout::from_size_align_unchecked(l.size() + o, o));
        if b.is_null() { return b; }
        let p = b.add(o);
        *head(p) = [MAGIC, code(&l)];
        LIVE.fetch_add(1, Relaxed);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let was = match check(p, l) { Some(x) => x, None => return };
        (*head(p))[0] = DEAD;
        LIVE.fetch_sub(1, Relaxed);
        FREED.fetch_add(1, Relaxed);
        let o = off(was.align());
        System.dealloc(p.sub(o), Layout::from_size_align_unchecked(was.size() + o, o));
    }
}

pub fn live() -> i64 { LIVE.load(Relaxed) }
pub fn freed() -> u64 { FREED.load(Relaxed) }
/// What was freed wrongly so far.
pub fn complaint() -> Option<String> {
    if BAD.swap(0, Relaxed) == 0 { return None; }
    let (was, as_) = (BAD_WAS.load(Relaxed), BAD_AS.load(Relaxed));
    let f = |c: u64| format!("{} bytes aligned to {}", c >> 8, 1u64 << (c & 0xff).min(63));
    Some(if BAD_HOW.load(Relaxed) == 1 { format!("a block of {} was freed as {}", f(was), f(as_)) } else { format!("freed {} that isn't a live block", f(as_)) })
}
