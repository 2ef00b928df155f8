//! The allocator is part of the environment the harness owns: `realloc` always moves the block and
//! poisons the old one (any GlobalAlloc may do that), freed memory is poisoned, and every thread's
//! outstanding bytes are metered so that runaway allocation is noticed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Adversary;

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

const POISON_MAX: usize = 1 << 14;
/// One thread asking for more than this gets "out of memory".
pub const HARD_LIMIT: i64 = 3 << 30;

fn add(n: i64) -> bool {
    CUR.try_with(|c| {
        let v = c.get() + n;
        if n > 0 && v > HARD_LIMIT { return false; }
        if n > 0 { moved(n as usize); }
        c.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
        true
    }).unwrap_or(true)
}

// ---- address orders: inside `placed`, this thread's blocks come from an arena of its own, at ascending or
// descending addresses, and no address is ever used twice.
const ARENA: usize = 32 << 20;
const ARENAS: usize = 72;
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
extern "C" { fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }
thread_local! {
    /// (mode: 0 system, 1 ascending, 2 descending; low; high)
    static PLACE: Cell<(u8, usize, usize)> = const { Cell::new((0, 0, 0)) };
    static MINE: Cell<usize> = const { Cell::new(0) };
}
pub fn reserve() {
    let p = unsafe { mmap(std::ptr::null_mut(), ARENA * ARENAS, 3, 0x4022, -1, 0) };
    assert!(p as isize != -1, "mmap");
    BASE.store(p as usize, Ordering::SeqCst);
}
/// Runs `f` with this thread's allocations placed in the given order. What `f` returns must be dropped before the
/// next call on this thread.
pub fn placed<T>(mode: u8, half: usize, f: impl FnOnce() -> T) -> T {
    let base = BASE.load(Ordering::SeqCst);
    if mode == 0 || base == 0 { return f(); }
    let mine = MINE.with(|m| { if m.get() == 0 { m.set(NEXT.fetch_add(1, Ordering::SeqCst) % ARENAS + 1); } m.get() - 1 });
    let lo = base + mine * ARENA + half * (ARENA / 2);
    PLACE.with(|p| p.set((mode, lo, lo + ARENA / 2)));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    PLACE.with(|p| p.set((0, 0, 0)));
    match r { Ok(r) => r, Err(e) => std::panic::resume_unwind(e) }
}
fn place(l: Layout) -> Option<*mut u8> {
    PLACE.try_with(|p| {
        let (mode, lo, hi) = p.get();
        if mode == 0 { return None; }
        let al = l.align().max(16);
        if mode == 1 {
            let a = (lo + al - 1) & !(al - 1);
            if a + l.size() > hi { return None; }
            p.set((mode, a + l.size(), hi));
            Some(a as *mut u8)
        } else {
            let a = (hi - l.size().min(hi - lo)) & !(al - 1);
            if a < lo || hi - lo < l.size() + al { return None; }
            p.set((mode, lo, a));
            Some(a as *mut u8)
        }
    }).ok().flatten()
}
fn in_arena(p: *mut u8) -> bool { let b = BASE.load(Ordering::Relaxed); b != 0 && (p as usize) >= b && (p as usize) < b + ARENA * ARENAS }

// ---- a plain allocator: blocks of a power of two from one region, a free list per size, so that no request ever
// pays for the requests before it (glibc's sorts and merges what was freed). For one thread only.
const PLAIN_REGION: usize = 16 << 30;
const PLAIN_MAX: usize = 1 << 20;
static PLAIN: AtomicUsize = AtomicUsize::new(0); // base of the region; 0: not in use
struct Lists { next: usize, free: [usize; 21] }
static mut LISTS: Lists = Lists { next: 0, free: [0; 21] };
extern "C" { fn munmap(a: *mut u8, len: usize) -> i32; }
/// From here on, this process (which must have one thread) allocates in that way.
pub fn plain() {
    let p = unsafe { mmap(std::ptr::null_mut(), PLAIN_REGION, 3, 0x4022, -1, 0) };
    assert!(p as isize != -1, "mmap");
    unsafe { LISTS.next = p as usize; }
    PLAIN.store(p as usize, Ordering::SeqCst);
}
fn class(l: Layout) -> usize { l.size().max(l.align()).max(16).next_power_of_two() }
unsafe fn plain_alloc(l: Layout) -> *mut u8 {
    let (c, base) = (class(l), PLAIN.load(Ordering::Relaxed));
    if c >= PLAIN_MAX { let p = mmap(std::ptr::null_mut(), l.size(), 3, 0x4022, -1, 0); return if p as isize == -1 { std::ptr::null_mut() } else { p }; }
    let lists = &mut *std::ptr::addr_of_mut!(LISTS);
    let k = c.trailing_zeros() as usize;
    let p = lists.free[k];
    if p != 0 { lists.free[k] = *(p as *const usize); return p as *mut u8; }
    let p = (lists.next + c - 1) & !(c - 1);
    if p + c > base + PLAIN_REGION { return std::ptr::null_mut(); }
    lists.next = p + c;
    p as *mut u8
}
/// Whether the block was one of ours.
unsafe fn plain_free(p: *mut u8, l: Layout) -> bool {
    let (c, base, a) = (class(l), PLAIN.load(Ordering::Relaxed), p as usize);
    if base == 0 { return false; }
    if c >= PLAIN_MAX { munmap(p, l.size()); return true; }
    if a < base || a >= base + PLAIN_REGION { return false; }
    let lists = &mut *std::ptr::addr_of_mut!(LISTS);
    let k = c.trailing_zeros() as usize;
    *(p as *mut usize) = lists.free[k];
    lists.free[k] = a;
    true
}

// ---- every allocation, release, copy and fill is a place where a thread can be made to stop (C26)
static POINTS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
thread_local! {
    /// Places left until this thread's turn ends (0: not under control), and what happens then.
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static AT: Cell<Option<(unsafe fn(*const ()) -> u64, *const ())>> = const { Cell::new(None) };
}
#[inline]
pub fn point() {
    if POINTS.load(Ordering::Relaxed) { let _ = LEFT.try_with(|l| { let n = l.get(); if n > 0 { l.set(n - 1); if n == 1 { stopped(); } } }); }
}
#[cold]
fn stopped() { if let Some((f, d)) = AT.with(|a| a.get()) { let n = unsafe { f(d) }; LEFT.with(|l| l.set(n)); } }
/// Runs `f` with its places counted: after `first` of them `at` is called (with no places counted) and says how many to
/// run on. Returns how many were left.
pub fn controlled<T>(first: u64, at: unsafe fn(*const ()) -> u64, data: *const (), f: impl FnOnce() -> T) -> (T, u64) {
    POINTS.store(true, Ordering::Relaxed);
    AT.with(|a| a.set(Some((at, data))));
    LEFT.with(|l| l.set(first));
    let r = f();
    let left = LEFT.with(|l| l.replace(0));
    AT.with(|a| a.set(None));
    (r, left)
}
/// Runs the harness's own code: its places do not count.
pub fn aside<T>(f: impl FnOnce() -> T) -> T { let n = LEFT.with(|l| l.replace(0)); let r = f(); LEFT.with(|l| l.set(n)); r }

unsafe impl GlobalAlloc for Adversary {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        if !add(l.size() as i64) { return std::ptr::null_mut(); }
        if PLAIN.load(Ordering::Relaxed) != 0 { return plain_alloc(l); }
        if let Some(p) = place(l) { return p; }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        if !add(l.size() as i64) { return std::ptr::null_mut(); }
        if PLAIN.load(Ordering::Relaxed) != 0 { let p = plain_alloc(l); if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); } return p; }
        if let Some(p) = place(l) { std::ptr::write_bytes(p, 0, l.size()); return p; }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        add(-(l.size() as i64));
        std::ptr::write_bytes(p, 0xDD, l.size().min(POISON_MAX));
        if in_arena(p) || plain_free(p, l) { return; }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

// ---- every byte copied, filled or allocated counts, for those who ask (C23)
static METER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static MOVED: AtomicUsize = AtomicUsize::new(0);
fn moved(n: usize) { if METER.load(Ordering::Relaxed) { MOVED.fetch_add(n, Ordering::Relaxed); } }
extern "C" { fn __memmove_chk(d: *mut u8, s: *const u8, n: usize, len: usize) -> *mut u8; fn __memset_chk(d: *mut u8, c: i32, n: usize, len: usize) -> *mut u8; }
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { point(); moved(n); __memmove_chk(d, s, n, std::hint::black_box(usize::MAX >> 1)) }
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { point(); moved(n); __memmove_chk(d, s, n, std::hint::black_box(usize::MAX >> 1)) }
#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 { point(); moved(n); __memset_chk(d, c, n, std::hint::black_box(usize::MAX >> 1)) }
/// Runs `f` and returns its result with the number of bytes it copied, filled or allocated (on any thread).
pub fn traffic<T>(f: impl FnOnce() -> T) -> (T, usize) {
    MOVED.store(0, Ordering::SeqCst);
    METER.store(true, Ordering::SeqCst);
    let r = f();
    METER.store(false, Ordering::SeqCst);
    (r, MOVED.load(Ordering::SeqCst))
}

/// Runs `f` and returns its result with the peak number of bytes it had outstanding on this thread.
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, PEAK.with(|p| p.get()) - base)
}

/// Bytes this thread has allocated and not yet freed.
pub fn outstanding() -> i64 { CUR.with(|c| c.get()) }
