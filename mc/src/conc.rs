//! C26: work going on at the same time does not get mixed up. Two threads under a scheduler of the harness: every
//! allocation, release, copy, fill and call-back of the one is a place where it can be made to stop and the other to
//! go on; all schedules with the stated number of switches are run. And calls made from within call-backs.
use crate::alloc::{aside, controlled, point};
use crate::core::*;
use crate::geom::*;
use crate::hist::Op;
use crate::stream::{files, Bytes};
use crate::wf::*;
use crate::Prop;
use std::cell::Cell;
use std::io::Read;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;
use topogeo::clip::clip_topology;
use topogeo::geo::Region;
use topogeo::read::shapefile::{ShapefileGeoIterator, ShapefileReader};
use topogeo::topology::{Topology, TopologyBuilder};

// ---- call-backs: the region data's copying and dropping, the byte source
thread_local! {
    /// Call-backs left until the nested call is made, and the call.
    static NEST: Cell<(u64, Option<(unsafe fn(*const ()), *const ())>)> = const { Cell::new((0, None)) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
}
fn call_back() {
    point();
    SEEN.with(|s| s.set(s.get() + 1));
    let (n, f) = NEST.with(|c| c.get());
    if n == 0 { return; }
    if n > 1 { NEST.with(|c| c.set((n - 1, f))); return; }
    NEST.with(|c| c.set((0, None)));
    if let Some((f, d)) = f { unsafe { f(d) } }
}
#[derive(Debug)]
struct Cb(u32);
impl Clone for Cb { fn clone(&self) -> Cb { call_back(); Cb(self.0) } }
impl Drop for Cb { fn drop(&mut self) { call_back(); } }
impl std::fmt::Display for Cb { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { call_back(); write!(f, "<{}>", self.0) } }
struct Src(Arc<Vec<u8>>, usize);
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        call_back();
        let n = b.len().min(self.0.len() - self.1).min(41);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}

// ---- what a thread does
#[derive(Clone)]
enum Job { Map(Vec<PRegion>, Vec<Op>), Read(Arc<Vec<u8>>, Arc<Vec<u8>>, encoding::EncodingRef) }
type Out = Result<Vec<String>, String>;
fn run(j: &Job) -> Out {
    match j {
        Job::Map(p, ops) => {
            let rs: Vec<Region<Cb>> = aside(|| p.iter().map(|r| to_region(r, Cb(r.data))).collect());
            let mut out = aside(Vec::new);
            for r in &rs {
                let x = (r.to_string(), r.outer_rings.iter().map(|x| x.area2_and_winding_order()).collect::<Vec<_>>());
                aside(|| out.push(format!("{} {:?}", x.0, x.1)));
            }
            let mut b = TopologyBuilder::new();
            for r in rs { b.add_region(r); }
            let mut t: Topology<Cb> = b.into_topology();
            let mut k = 0;
            loop {
                aside(|| -> R { let v = view(&t, |d| d.0)?; v.structure()?; out.push(format!("{:?}", v)); Ok(()) })?;
                if k == ops.len() { break; }
                t = match ops[k] { Op::Norm => topogeo::normalize(&t), Op::Simp(a) => topogeo::simplify(t, a), Op::Clip(m) => clip_topology(&t, &m.real()) };
                k += 1;
            }
            drop(t);
            Ok(out)
        }
        Job::Read(shp, dbf, enc) => {
            let mut out: Vec<String> = aside(Vec::new);
            let open = || ShapefileReader::new(Src(shp.clone(), 0), Src(dbf.clone(), 0), *enc);
            let mut r = open().map_err(|e| e.to_string())?;
            let fields = r.dbf_fields();
            for _ in 0..9 {
                match r.next() {
                    None => break,
                    Some(Err(e)) => out.push(e.to_string()),
                    Some(Ok(x)) => {
                        let v: Vec<String> = fields.iter().map(|f| f.read_string(&x.data).unwrap_or_else(|e| e.to_string())).collect();
                        let s = x.to_string();
                        aside(|| out.push(format!("{:?} {}", v, s)));
                    }
                }
            }
            let mut r = open().map_err(|e| e.to_string())?;
            let mut g = ShapefileGeoIterator::new(&mut r);
            for _ in 0..9 {
                match g.next() { None => break, Some(Err(e)) => out.push(e.to_string()), Some(Ok(x)) => { let s = x.to_string(); aside(|| out.push(s.clone())); } }
            }
            Ok(out)
        }
    }
}
fn run_caught(j: &Job) -> Out { let mut cx = Cx::new(); cx.call("", || run(j)).unwrap_or_else(Err) }

// ---- the scheduler
struct St { turn: usize, free: bool, done: [bool; 2], started: bool }
struct Sched { st: Mutex<St>, cv: Condvar, plan: [Vec<u64>; 2] }
struct Me { s: *const Sched, id: usize, next: Cell<usize> }
/// Schedules in which a thread stood still although it was its turn (waiting for a lock, say).
static BLOCKED: AtomicU64 = AtomicU64::new(0);
const FOREVER: u64 = u64::MAX >> 1;
impl Sched {
    /// Waits until it is this thread's turn.
    fn wait(&self, id: usize) {
        let mut g = self.st.lock().unwrap();
        while g.turn != id && !g.free && !g.done[1 - id] {
            let (h, t) = self.cv.wait_timeout(g, Duration::from_millis(300)).unwrap();
            g = h;
            if t.timed_out() && g.turn != id && g.started && !g.done[1 - id] { g.free = true; BLOCKED.fetch_add(1, Ordering::SeqCst); self.cv.notify_all(); }
        }
    }
    fn pass(&self, id: usize, done: bool) {
        let mut g = self.st.lock().unwrap();
        if done { g.done[id] = true; }
        g.turn = 1 - id;
        self.cv.notify_all();
    }
}
unsafe fn switch(d: *const ()) -> u64 {
    let me = &*(d as *const Me);
    let s = &*me.s;
    s.pass(me.id, false);
    s.wait(me.id);
    let k = me.next.get();
    me.next.set(k + 1);
    s.plan[me.id].get(k).cloned().unwrap_or(FOREVER)
}
fn thread(s: &Sched, id: usize, j: &Job) -> Out {
    s.wait(id);
    if id == 1 { s.st.lock().unwrap().started = true; }
    let me = Me { s, id, next: Cell::new(1) };
    let (r, _) = controlled(s.plan[id].first().cloned().unwrap_or(FOREVER), switch, &me as *const Me as *const (), || run_caught(j));
    s.pass(id, true);
    r
}
/// The first runs plan[0][0] places, the second plan[1][0], the first plan[0][1], ...
fn both(a: &Job, b: &Job, plan: [Vec<u64>; 2]) -> (Out, Out) {
    let s = Sched { st: Mutex::new(St { turn: 0, free: false, done: [false; 2], started: true }), cv: Condvar::new(), plan };
    std::thread::scope(|sc| {
        let h = sc.spawn(|| thread(&s, 1, b));
        let x = thread(&s, 0, a);
        (x, h.join().unwrap_or_else(|_| Err("the thread died".into())))
    })
}
unsafe fn never(_: *const ()) -> u64 { FOREVER }
fn places(j: &Job) -> u64 { FOREVER - controlled(FOREVER, never, std::ptr::null(), || run_caught(j)).1 }

fn compare(who: &str, got: &Out, want: &Out) -> R {
    if got == want { return Ok(()); }
    let show = |o: &Out, k: usize| match o { Ok(v) => v.get(k).cloned().unwrap_or("(nothing)".into()), Err(e) => e.clone() };
    let k = match (got, want) { (Ok(g), Ok(w)) => g.iter().zip(w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len())), _ => 0 };
    Err(format!("{}: step {} gives {}, alone it gives {}", who, k, show(got, k), show(want, k)))
}

struct Task { name: String, job: Job, alone: Out, places: u64, calls: u64 }
fn task(name: String, job: Job) -> Task {
    let mut alone = run_caught(&job);
    for _ in 0..2 { alone = run_caught(&job); } // whatever is set up once is
    SEEN.with(|s| s.set(0));
    let n = places(&job);
    let calls = SEEN.with(|s| s.get());
    Task { name, job, alone, places: n, calls }
}
fn square(x: i64, y: i64, w: i64, h: i64) -> Vec<P> { vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)] }
fn enc(version: u32) -> encoding::EncodingRef { if version == 0 { encoding::all::WINDOWS_1252 } else { encoding::all::ISO_8859_5 } }
fn preg(data: u32, outer: Vec<PRing>, inner: Vec<PRing>) -> PRegion { PRegion { data, outer, inner } }
/// The tasks, in two versions that differ in every coordinate, name and value.
fn tasks(version: u32) -> Vec<Task> {
    let (o, d) = (version as i64 * 1000, version * 100);
    let sh = |r: Vec<P>| -> PRing { PRing { pts: r.into_iter().map(|p| (p.0 + o, p.1 + 2 * o)).collect() } };
    let sq = |x, y, w, h| sh(square(x, y, w, h));
    let mut v = vec![];
    v.push(task(format!("two squares/{}", version), Job::Map(vec![preg(d + 1, vec![sq(0, 0, 10, 10)], vec![]), preg(d + 2, vec![sq(10, 0, 10, 10)], vec![])], vec![Op::Norm, Op::Clip(M::MaxX(o + 15))])));
    v.push(task(format!("a bent outline/{}", version), Job::Map(vec![preg(d + 3, vec![sh(vec![(0, 0), (3, 1), (7, 0), (10, 4), (9, 9), (5, 10), (2, 12), (0, 6)])], vec![])], vec![Op::Simp(9 + 7 * version as u64), Op::Clip(M::MinY(2 * o + 3 + 2 * o / 1000))])));
    v.push(task(format!("a hole, its filling, pieces/{}", version), Job::Map(vec![
        preg(d + 4, vec![sq(0, 0, 10, 10)], vec![{ let mut r = sq(3, 3, 3, 3); r.pts.reverse(); r }]), preg(d + 5, vec![sq(3, 3, 3, 3)], vec![]), preg(d + 6, vec![sq(10, 0, 5, 10), sq(15, 0, 5, 10)], vec![])],
        vec![Op::Norm, Op::Simp(4 + 100 * version as u64), Op::Clip(M::MinX(o + 4)), Op::Norm])));
    for k in [0u64, 1] { let (s, b): Bytes = files(k + 2 * version as u64); v.push(task(format!("files {}", k + 2 * version as u64), Job::Read(Arc::new(s), Arc::new(b), enc(version)))); }
    v
}

/// Small ones, for schedules with two stops.
fn tiny(version: u32) -> Vec<Task> {
    let (o, d) = (version as i64 * 1000, version * 100);
    let sh = |r: Vec<P>| -> PRing { PRing { pts: r.into_iter().map(|p| (p.0 + o, p.1 + 2 * o)).collect() } };
    let one = || vec![preg(d + 7, vec![sh(vec![(0, 0), (9, 2), (8, 7), (4, 9)])], vec![])];
    let two = || vec![preg(d + 8, vec![sh(vec![(0, 0), (4, 0), (4, 4)])], vec![]), preg(d + 9, vec![sh(vec![(0, 0), (4, 4), (0, 4)])], vec![])];
    let mut v = vec![];
    for (n, p, op) in [("simplify", one(), Op::Simp(30 - 29 * version as u64)), ("clip", two(), Op::Clip(M::MaxX(o + 2))), ("normalize", two(), Op::Norm)] { v.push(task(format!("{}/{}", n, version), Job::Map(p, vec![op]))); }
    let poly = vec![vec![(0., 0.), (0., 1.), (1.5, 1.), (0., 0.)].into_iter().map(|p: (f64, f64)| (p.0 + o as f64, p.1)).collect::<Vec<_>>()];
    let (s, b) = (crate::files::shp_file(&[poly], None), crate::files::dbf_file(&[crate::files::field("N", 'N', 3), crate::files::field("T", 'C', 2)], &[vec![format!("{:3}", 7 + d).into_bytes(), vec![b'a' + version as u8, 0x80 + version as u8]]], true));
    v.push(task(format!("read/{}", version), Job::Read(Arc::new(s), Arc::new(b), enc(version))));
    v
}

fn judge(a: &Task, b: &Task, got: (Out, Out), cx: &mut Cx) -> R {
    cx.transitions += 2;
    compare("the first", &got.0, &a.alone)?;
    compare("the second", &got.1, &b.alone)?;
    cx.validated += 1;
    Ok(())
}
/// Whether schedules still make sense: where the library serialises its callers by a lock there is nothing to switch.
fn useful(cx: &mut Cx) -> bool { if BLOCKED.load(Ordering::SeqCst) > 60 { cx.note("not run: threads wait for each other"); false } else { true } }

/// Nothing else of the library runs at the same time: what is found can be replayed.
static ALONE: Mutex<()> = Mutex::new(());
fn c26_spaces(th: bool) -> Vec<Space> {
    let first = Arc::new(tasks(0));
    let second = Arc::new(tasks(1));
    let mut v = vec![];
    if std::env::var("MC_C26").is_ok() { for t in first.iter().chain(second.iter()) { println!("{}: {} places, {} call-backs", t.name, t.places, t.calls); } }
    // one switch to and fro: the first stops at every place, the second runs through
    for a in 0..first.len() { for b in 0..second.len() {
        let (x, y, z, w) = (first.clone(), second.clone(), first.clone(), second.clone());
        v.push(Space::new(format!("one stop: {} / {}", first[a].name, second[b].name), first[a].places, move |i, cx| {
            if !useful(cx) { return Ok(()); }
            let got = { let _one = ALONE.lock().unwrap_or_else(|e| e.into_inner()); both(&x[a].job, &y[b].job, [vec![i + 1], vec![]]) };
            cx.state(&(a, b, i));
            judge(&x[a], &y[b], got, cx)
        }, move |i| format!("[{}] stops at place {}, [{}] runs to its end, the first goes on", z[a].name, i + 1, w[b].name)));
    } }
    // call-backs
    for a in 0..first.len() { for b in 0..second.len() {
        let (x, y, z, w) = (first.clone(), second.clone(), first.clone(), second.clone());
        v.push(Space::new(format!("call-back: {} / {}", first[a].name, second[b].name), first[a].calls, move |i, cx| {
            let _one = ALONE.lock().unwrap_or_else(|e| e.into_inner());
            // in a thread of its own: a call that waits for itself never comes back
            let (x2, y2) = (x.clone(), y.clone());
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                let inner: Cell<Option<Out>> = Cell::new(None);
                struct D<'a>(&'a Job, &'a Cell<Option<Out>>);
                unsafe fn nested(d: *const ()) { let d = &*(d as *const D); d.1.set(Some(run_caught(d.0))); }
                let d = D(&y2[b].job, &inner);
                NEST.with(|c| c.set((i + 1, Some((nested, &d as *const D as *const ())))));
                let outer = run_caught(&x2[a].job);
                NEST.with(|c| c.set((0, None)));
                let _ = tx.send((outer, inner.take()));
            });
            let (outer, inner) = rx.recv_timeout(Duration::from_secs(60)).map_err(|_| "a call made from within a call-back does not come back".to_string())?;
            cx.state(&(a, b, i));
            match inner { None => { cx.note("fewer call-backs than alone"); compare("the outer", &outer, &x[a].alone) } Some(got) => judge(&x[a], &y[b], (outer, got), cx) }
        }, move |i| format!("[{}] makes call-back {}, in which [{}] is run", z[a].name, i + 1, w[b].name)));
    } }
    // two stops: the first at every place, then the second at every place
    let (first, second) = (Arc::new(tiny(0)), Arc::new(tiny(1)));
    if std::env::var("MC_C26").is_ok() { for t in first.iter().chain(second.iter()) { println!("{}: {} places, {} call-backs", t.name, t.places, t.calls); } }
    for a in 0..first.len() { for b in 0..second.len() {
        if !th && a != b { continue; }
        let (x, y, z, w) = (first.clone(), second.clone(), first.clone(), second.clone());
        let n = second[b].places;
        v.push(Space::new(format!("two stops: {} / {}", first[a].name, second[b].name), first[a].places * n, move |i, cx| {
            if !useful(cx) { return Ok(()); }
            let got = both(&x[a].job, &y[b].job, [vec![i / n + 1], vec![i % n + 1]]);
            cx.state(&(1, a, b, i));
            judge(&x[a], &y[b], got, cx)
        }, move |i| format!("[{}] stops at place {}, [{}] at place {}, the first runs to its end, the second goes on", z[a].name, i / n + 1, w[b].name, i % n + 1)));
    } }
    v
}
pub fn props() -> Vec<Prop> { vec![Prop { id: "C26", level: "model_checking", spaces: c26_spaces }] }
