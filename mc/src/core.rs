//! Exhaustive exploration of finite, index-addressable spaces, in parallel and supervised.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// Some case has failed: what is still running need not be finished.
pub static FAILED: AtomicBool = AtomicBool::new(false);

pub type R = Result<(), String>;

#[derive(Default, Clone, Copy)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, v: u64) { self.0 = v }
}
pub type HSet = HashSet<u64, BuildHasherDefault<IdHash>>;

/// FNV-1a with a final mix: seed-independent hashing of states.
pub struct Fnv(pub u64);
impl Fnv { pub fn new() -> Fnv { Fnv(0xcbf29ce484222325) } }
impl Hasher for Fnv {
    fn finish(&self) -> u64 { let mut x = self.0; x ^= x >> 32; x = x.wrapping_mul(0xd6e8feb86659fd93); x ^= x >> 32; x = x.wrapping_mul(0xd6e8feb86659fd93); x ^ (x >> 32) }
    fn write(&mut self, b: &[u8]) { for &c in b { self.0 ^= c as u64; self.0 = self.0.wrapping_mul(0x100000001b3); } }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95); }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_i64(&mut self, v: i64) { self.write_u64(v as u64) }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
}
pub fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 { let mut h = Fnv::new(); t.hash(&mut h); h.finish() }

pub struct Cx {
    pub transitions: u64,
    pub validated: u64,
    pub states: HSet,
    pub notes: BTreeMap<&'static str, u64>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static EXPECT: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !EXPECT.with(|e| *e.borrow()) { old(info); return; }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked: {} ({})", msg, loc)));
    }));
}

impl Cx {
    pub fn new() -> Cx { Cx { transitions: 0, validated: 0, states: HSet::default(), notes: BTreeMap::new() } }
    /// Runs real code; a panic becomes an error value.
    pub fn call<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        self.transitions += 1;
        let prev = EXPECT.with(|e| e.replace(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        EXPECT.with(|e| *e.borrow_mut() = prev);
        r.map_err(|_| format!("{} {}", what, PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()))
    }
    pub fn state<T: std::hash::Hash + ?Sized>(&mut self, t: &T) -> bool { let h = hash(t); self.states.insert(h) }
    pub fn note(&mut self, k: &'static str) { *self.notes.entry(k).or_insert(0) += 1; }
}

pub struct Space {
    pub name: String,
    pub size: u64,
    pub run: Box<dyn Fn(u64, &mut Cx) -> R + Sync + Send>,
    pub describe: Box<dyn Fn(u64) -> String + Sync + Send>,
}
impl Space {
    pub fn new(name: impl Into<String>, size: u64,
        run: impl Fn(u64, &mut Cx) -> R + Sync + Send + 'static,
        describe: impl Fn(u64) -> String + Sync + Send + 'static) -> Space {
        Space { name: name.into(), size, run: Box::new(run), describe: Box::new(describe) }
    }
}

fn thread_cpu() -> f64 { let mut ts = [0i64; 2]; unsafe { clock_gettime(3, &mut ts) }; ts[0] as f64 + ts[1] as f64 * 1e-9 }
/// Very large cases: once the space has used `secs` of CPU time, the rest is skipped (and counted as such).
pub fn budget(s: Space, secs: f64) -> Space {
    let run = s.run;
    let used = AtomicU64::new(0); // milliseconds
    Space { name: s.name, size: s.size, describe: s.describe, run: Box::new(move |i, cx| {
        if used.load(Ordering::SeqCst) as f64 > secs * 1000.0 { cx.note("skipped: CPU budget of this space used up"); return Ok(()); }
        let t = thread_cpu();
        let r = run(i, cx);
        used.fetch_add(((thread_cpu() - t) * 1000.0) as u64, Ordering::SeqCst);
        r
    }) }
}

pub struct Violation { pub space: String, pub idx: u64, pub msg: String, pub desc: String }

pub struct Report {
    pub states: u64, pub transitions: u64, pub validated: u64, pub cases: u64,
    pub notes: BTreeMap<&'static str, u64>,
    pub spaces: Vec<(String, u64, u64, f64)>,
    pub samples: Vec<String>,
    pub violation: Option<Violation>,
}

// ---- supervision: worker positions live in a shared mapping so that a parent process can see them.
extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, ts: *mut [i64; 2]) -> i32;
}
pub const MAXW: usize = 64;
/// Per worker: space index + 1, case index.
pub struct Slots(*mut AtomicU64);
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    pub fn open(path: &str) -> Slots {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slot file");
        f.set_len((MAXW * 16) as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), MAXW * 16, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Slots(p as *mut AtomicU64)
    }
    pub fn anon() -> Slots {
        let v: Vec<AtomicU64> = (0..MAXW * 2).map(|_| AtomicU64::new(0)).collect();
        Slots(Box::leak(v.into_boxed_slice()).as_mut_ptr())
    }
    pub fn at(&self, w: usize, k: usize) -> &AtomicU64 { unsafe { &*self.0.add(w * 2 + k) } }
}

fn cpu_ns(clock: i32) -> u64 {
    let mut ts = [0i64; 2];
    if unsafe { clock_gettime(clock, &mut ts) } == 0 { ts[0] as u64 * 1_000_000_000 + ts[1] as u64 } else { 0 }
}

/// A single case that burns this much CPU time counts as non-terminating (cases take microseconds to seconds).
pub const HANG_CPU_S: u64 = 150;
/// ... and one that makes no progress for this long on the clock is blocked.
pub const HANG_WALL_S: u64 = 400;

pub fn explore(spaces: &[Space], slots: &Slots, threads: usize, on_hang: &(dyn Fn(&Space, u64) + Sync)) -> Report {
    let mut rep = Report { states: 0, transitions: 0, validated: 0, cases: 0, notes: BTreeMap::new(), spaces: vec![], samples: vec![], violation: None };
    let states: Vec<Mutex<HSet>> = (0..64).map(|_| Mutex::new(HSet::default())).collect();
    for (si, sp) in spaces.iter().enumerate() {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let bad: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let stop_at = AtomicU64::new(u64::MAX);
        let done = AtomicBool::new(false);
        let chunk = (sp.size / (threads as u64 * 64)).clamp(1, 4096);
        let clocks: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
        let before: u64 = states.iter().map(|s| s.lock().unwrap().len() as u64).sum();
        let totals = Mutex::new((0u64, 0u64, BTreeMap::<&'static str, u64>::new()));
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for w in 0..threads {
                let (next, bad, stop_at, clocks, states, totals) = (&next, &bad, &stop_at, &clocks, &states, &totals);
                hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let mut c = 0i32;
                    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
                    clocks[w].store(c as u32 as u64 + 1, Ordering::SeqCst);
                    let mut cx = Cx::new();
                    'outer: loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= sp.size { break; }
                        for idx in a..(a + chunk).min(sp.size) {
                            if idx >= stop_at.load(Ordering::Relaxed) { break 'outer; }
                            slots.at(w, 1).store(idx, Ordering::Relaxed);
                            slots.at(w, 0).store(si as u64 + 1, Ordering::Relaxed);
                            // a case on which even the oracle trips over the result has failed, too
                            let r = catch_unwind(AssertUnwindSafe(|| (sp.run)(idx, &mut cx))).unwrap_or_else(|e| Err(format!("the result could not be examined: {}",
                                e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())));
                            if let Err(m) = r {
                                let mut b = bad.lock().unwrap();
                                if b.as_ref().map_or(true, |x| idx < x.0) { *b = Some((idx, m)); }
                                stop_at.fetch_min(idx, Ordering::SeqCst);
                                FAILED.store(true, Ordering::SeqCst);
                                break 'outer;
                            }
                        }
                        if cx.states.len() > 1 << 16 { merge(states, &mut cx.states); }
                    }
                    slots.at(w, 0).store(0, Ordering::Relaxed);
                    clocks[w].store(0, Ordering::SeqCst);
                    merge(states, &mut cx.states);
                    let mut t = totals.lock().unwrap();
                    t.0 += cx.transitions; t.1 += cx.validated;
                    for (k, v) in cx.notes { *t.2.entry(k).or_insert(0) += v; }
                }).unwrap());
            }
            let done = &done;
            let clocks = &clocks;
            sc.spawn(move || {
                let mut last: Vec<(u64, u64, Instant)> = vec![(u64::MAX, 0, Instant::now()); threads];
                let mut tick = 0;
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    tick += 1;
                    if tick % 50 != 0 { continue; }
                    for w in 0..threads {
                        let c = clocks[w].load(Ordering::SeqCst);
                        if c == 0 || slots.at(w, 0).load(Ordering::Relaxed) == 0 { continue; }
                        let idx = slots.at(w, 1).load(Ordering::Relaxed);
                        let cpu = cpu_ns((c - 1) as u32 as i32);
                        if last[w].0 != idx { last[w] = (idx, cpu, Instant::now()); }
                        else if cpu.saturating_sub(last[w].1) > HANG_CPU_S * 1_000_000_000 || last[w].2.elapsed().as_secs() > HANG_WALL_S { on_hang(sp, idx); }
                    }
                }
            });
            let ok: Vec<bool> = hs.into_iter().map(|h| h.join().is_ok()).collect();
            done.store(true, Ordering::Relaxed);
            assert!(ok.iter().all(|&x| x), "a worker thread died");
        });
        let t = totals.into_inner().unwrap();
        rep.transitions += t.0; rep.validated += t.1;
        for (k, v) in t.2 { *rep.notes.entry(k).or_insert(0) += v; }
        let after: u64 = states.iter().map(|s| s.lock().unwrap().len() as u64).sum();
        rep.states = after;
        rep.cases += sp.size;
        rep.spaces.push((sp.name.clone(), sp.size, after - before, t0.elapsed().as_secs_f64()));
        if rep.samples.len() < 6 && sp.size > 0 { rep.samples.push(format!("{}[{}]: {}", sp.name, sp.size / 2, (sp.describe)(sp.size / 2))); }
        let b = bad.into_inner().unwrap();
        if let Some((idx, msg)) = b {
            rep.violation = Some(Violation { space: sp.name.clone(), idx, msg, desc: (sp.describe)(idx) });
            return rep;
        }
    }
    rep
}

fn merge(states: &[Mutex<HSet>], local: &mut HSet) {
    let mut parts: Vec<Vec<u64>> = vec![vec![]; 64];
    for h in local.drain() { parts[((h >> 20) & 63) as usize].push(h); }
    for (i, p) in parts.into_iter().enumerate() { if !p.is_empty() { states[i].lock().unwrap().extend(p); } }
}

/// Mixed-radix decoding of a case index.
pub struct Dec(pub u64);
impl Dec {
    pub fn take(&mut self, n: u64) -> u64 { let r = self.0 % n; self.0 /= n; r }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let n = s.len() as u64; &s[self.take(n) as usize] }
}
pub fn pow(b: u64, e: u32) -> u64 { b.checked_pow(e).expect("space too large") }
