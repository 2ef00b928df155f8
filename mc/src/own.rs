//! C24: everything is owned once. Region data that counts its own copies, topologies kept side by side and dropped in
//! every order, copying that fails at every point, readers and records whose sources and memory are counted.
use crate::alloc::outstanding;
use crate::core::*;
use crate::files::*;
use crate::geom::*;
use crate::hist::{in_domain, ops_for, Op};
use crate::maps::*;
use crate::wf::*;
use crate::Prop;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Cursor, Read};
use topogeo::clip::clip_topology;
use topogeo::geo::Region;
use topogeo::read::shapefile::{ShapefileGeoIterator, ShapefileReader};
use topogeo::topology::{Topology, TopologyBuilder};

// ---- region data that keeps a register of what is alive
#[derive(Default)]
struct Reg { next: u64, live: BTreeMap<u64, u32>, bad: Vec<String>, clones_left: Option<u64>, clones: u64 }
thread_local! { static REG: RefCell<Reg> = RefCell::new(Reg::default()); }
fn reg<T>(f: impl FnOnce(&mut Reg) -> T) -> T { REG.with(|r| f(&mut r.borrow_mut())) }
/// Data of the size of W: a number that is never used twice.
pub struct Tok<W: Word>(W);
pub trait Word: Copy + 'static { const NAME: &'static str; fn from(n: u64) -> Self; fn id(&self) -> Option<u64>; }
const KEY: u64 = 0x5a5a_0000;
impl Word for u32 { const NAME: &'static str = "4 bytes "; fn from(n: u64) -> u32 { (n ^ KEY) as u32 } fn id(&self) -> Option<u64> { Some(*self as u64 ^ KEY) } }
impl Word for u64 { const NAME: &'static str = "8 bytes "; fn from(n: u64) -> u64 { n ^ KEY | (!n << 32) } fn id(&self) -> Option<u64> { let n = (*self & 0xffff_ffff) ^ KEY; if <u64 as Word>::from(n) == *self { Some(n) } else { None } } }
impl Word for [u64; 5] { const NAME: &'static str = ""; fn from(n: u64) -> Self { [n, !n, n, n ^ KEY, n] } fn id(&self) -> Option<u64> { if <[u64; 5] as Word>::from(self[0]) == *self { Some(self[0]) } else { None } } }
impl<W: Word> Tok<W> {
    fn new(n: u32) -> Tok<W> { Tok(W::from(reg(|r| { r.next += 1; r.live.insert(r.next, n); r.next }))) }
    /// What it is, if it is alive.
    fn get(&self) -> Option<(u32, u64)> { let id = self.0.id()?; reg(|r| r.live.get(&id).map(|&n| (n, id))) }
}
impl<W: Word> Clone for Tok<W> {
    fn clone(&self) -> Tok<W> {
        let n = match self.get() { Some(x) => x.0, None => { reg(|r| r.bad.push("data that is not there any more was copied".into())); return Tok(self.0); } };
        let stop = reg(|r| { r.clones += 1; match r.clones_left { Some(0) => true, Some(k) => { r.clones_left = Some(k - 1); false } None => false } });
        if stop { panic!("copying the data fails"); }
        Tok::new(n)
    }
}
impl<W: Word> Drop for Tok<W> {
    fn drop(&mut self) {
        let id = self.0.id();
        reg(|r| if id.and_then(|i| r.live.remove(&i)).is_none() { r.bad.push(format!("data {:?} was dropped twice, or something else in its place", id)); });
    }
}

type T<W> = Topology<Tok<W>>;
type V = View<(u32, u64)>;
fn look<W: Word>(t: &T<W>) -> Result<V, String> {
    let v = view(t, |d| d.get().unwrap_or((0, 0)))?;
    if v.regions.iter().any(|r| r.data.1 == 0) { return Err("the data of a region is not alive".into()); }
    Ok(v)
}
/// What is alive is exactly what the topologies at hand hold, each once.
fn accounted(at: &str, held: &[&V]) -> R {
    let mut ids: Vec<u64> = held.iter().flat_map(|v| v.regions.iter().map(|r| r.data.1)).collect();
    ids.sort_unstable();
    let (live, bad): (Vec<u64>, Option<String>) = reg(|r| (r.live.keys().cloned().collect(), r.bad.first().cloned()));
    if let Some(b) = bad { return Err(format!("{}: {}", at, b)); }
    if live != ids { return Err(format!("{}: the data alive is {:?}, but the topologies hold {:?}", at, live, ids)); }
    Ok(())
}
fn build<W: Word>(p: &[PRegion], stop: Option<usize>) -> Option<T<W>> {
    let rs: Vec<Region<Tok<W>>> = p.iter().map(|r| to_region(r, Tok::new(r.data))).collect();
    let mut b = TopologyBuilder::new();
    for (i, r) in rs.into_iter().enumerate() { if stop == Some(i) { return None; } b.add_region(r); }
    if stop.is_some() { return None; }
    Some(b.into_topology())
}
fn make<W: Word>(t: &T<W>, op: Op) -> T<W> { match op { Op::Clip(m) => clip_topology(t, &m.real()), _ => topogeo::normalize(t) } }

fn balanced(what: &str, mut f: impl FnMut() -> R) -> R {
    // what is set up once and kept (per thread or process) is not a leak: it does not come again
    let mut left = 0;
    for _ in 0..3 {
        let before = outstanding();
        f()?;
        left = outstanding() - before;
        if left == 0 { return Ok(()); }
    }
    Err(format!("{}: {} bytes are still allocated after everything was dropped, each time", what, left))
}

/// One history: what is borrowed is kept, everything is dropped in the order `perm`.
fn one<W: Word>(p: &[PRegion], ops: &[Op], mut perm: u64, cx: &mut Cx) -> R {
    reg(|r| *r = Reg::default());
    let first = cx.call("building", || build::<W>(p, None))?.unwrap();
    let mut held: Vec<(T<W>, V)> = vec![];
    let v = look(&first)?;
    accounted("after building", &[&v])?;
    held.push((first, v));
    for (k, &op) in ops.iter().enumerate() {
        if !in_domain(&held.last().unwrap().1, op) { break; }
        let at = format!("after {:?}", &ops[..=k]);
        match op {
            Op::Simp(a) => {
                let (t, _) = held.pop().unwrap();
                let t = cx.call(&at, || topogeo::simplify(t, a))?;
                let v = look(&t).map_err(|e| format!("{}: {}", at, e))?;
                held.push((t, v));
            }
            op => {
                let t = cx.call(&at, || make(&held.last().unwrap().0, op))?;
                let v = look(&t).map_err(|e| format!("{}: {}", at, e))?;
                held.push((t, v));
            }
        }
        accounted(&at, &held.iter().map(|h| &h.1).collect::<Vec<_>>())?;
    }
    for (_, v) in &held { cx.state(v); }
    while !held.is_empty() {
        let n = held.len() as u64;
        let k = (perm % n) as usize;
        perm /= n;
        let (t, _) = held.remove(k);
        cx.call("dropping a topology", move || drop(t))?;
        let at = format!("after {:?} and dropping topology {} of {}", ops, k + 1, n);
        for (t, v) in &held { if look(t).map_err(|e| format!("{}: {}", at, e))? != *v { return Err(format!("{}: another topology changed from {}", at, v.show())); } }
        accounted(&at, &held.iter().map(|h| &h.1).collect::<Vec<_>>())?;
    }
    reg(|r| *r = Reg::default());
    cx.validated += 1;
    Ok(())
}
fn case<W: Word>(p: &[PRegion], ops: &[Op], perm: u64, cx: &mut Cx) -> R {
    // the harness's own notes are dropped before the bytes are counted
    let r = balanced(&format!("history {:?}", ops), || one::<W>(p, ops, perm, &mut Cx::new()));
    if r.is_err() { reg(|r| *r = Reg::default()); return r; }
    cx.transitions += 1 + ops.len() as u64;
    cx.validated += 1;
    cx.state(&(W::NAME, hash(&show_regions(p)), hash(ops), perm));
    Ok(())
}

/// The builder is dropped after some of the regions; copying data fails at each copy in turn.
fn failing<W: Word>(p: &[PRegion], ops: &[Op], cx: &mut Cx) -> R {
    for k in 0..=p.len() {
        balanced(&format!("a builder dropped after {} regions", k), || {
            reg(|r| *r = Reg::default());
            let r = Cx::new().call("dropping a builder", || build::<W>(p, Some(k)).is_none()).and_then(|_| accounted(&format!("after dropping a builder with {} regions", k), &[]));
            reg(|r| *r = Reg::default());
            r
        })?;
        cx.transitions += 1;
    }
    reg(|r| *r = Reg::default());
    let mut t = cx.call("building", || build::<W>(p, None))?.unwrap();
    for &op in ops {
        let v = look(&t)?;
        if !in_domain(&v, op) { break; }
        if let Op::Simp(a) = op { t = cx.call("simplifying", || topogeo::simplify(t, a))?; continue; }
        for k in 0.. {
            reg(|r| r.clones_left = Some(k));
            let got = cx.call("", || make(&t, op));
            reg(|r| r.clones_left = None);
            let done = got.is_ok();
            match got {
                Err(e) if !e.contains("copying the data fails") => return Err(format!("{:?}: {}", op, e)),
                Err(_) => cx.note("copying failed"),
                Ok(n) => { let w = look(&n)?; accounted(&format!("after {:?}", op), &[&v, &w])?; }
            }
            if look(&t)? != v { return Err(format!("{:?} with copy {} failing changed its input {}", op, k + 1, v.show())); }
            // after a failure something may stay allocated, but nothing may be dropped twice
            if let Some(b) = reg(|r| r.bad.first().cloned()) { return Err(format!("{:?} with copy {} failing: {}", op, k + 1, b)); }
            if done { break; }
            cx.validated += 1;
            let ids: Vec<u64> = v.regions.iter().map(|r| r.data.1).collect();
            reg(|r| r.live.retain(|id, _| ids.contains(id)));
        }
        let n = cx.call("", || make(&t, op))?;
        t = n;
    }
    cx.state(&look(&t)?);
    drop(t);
    let r = reg(|r| r.bad.first().cloned().map_or(Ok(()), Err));
    reg(|r| *r = Reg::default());
    r
}

fn hist_space<W: Word>(m: Map, depth: u32, full: bool) -> Space {
    let ops = ops_for(&m, full);
    let n = ops.len() as u64;
    let orders: u64 = (1..=depth as u64 + 1).product();
    let (a, b) = (m.clone(), m.clone());
    let dec = move |i: u64| { let mut d = Dec(i); let h: Vec<Op> = (0..depth).map(|_| ops[d.take(n) as usize]).collect(); (h, d.take(orders), d.0) };
    let dec2 = dec.clone();
    Space::new(format!("{}depth{}{}/{}", W::NAME, depth, if full { "full" } else { "" }, m.name), m.size() * pow(n, depth) * orders,
        move |i, cx| { let (h, o, k) = dec(i); let (_, _, p) = a.decode(k); case::<W>(&p, &h, o, cx) },
        move |i| { let (h, o, k) = dec2(i); format!("history {:?}, dropped in order {}, on {}", h, o, b.describe(k)) })
}
fn fail_space<W: Word>(m: Map, depth: u32) -> Space {
    let ops = ops_for(&m, false);
    let n = ops.len() as u64;
    let (a, b) = (m.clone(), m.clone());
    let dec = move |i: u64| { let mut d = Dec(i); let h: Vec<Op> = (0..depth).map(|_| ops[d.take(n) as usize]).collect(); (h, d.0) };
    let dec2 = dec.clone();
    Space::new(format!("{}failing copies depth{}/{}", W::NAME, depth, m.name), m.size() * pow(n, depth),
        move |i, cx| { let (h, k) = dec(i); let (_, _, p) = a.decode(k); failing::<W>(&p, &h, cx) },
        move |i| { let (h, k) = dec2(i); format!("history {:?} with failing copies on {}", h, b.describe(k)) })
}

// ---- readers
struct Src { c: Cursor<Vec<u8>>, _t: Tok<u64> }
impl Read for Src { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.c.read(b) } }
fn src(b: &[u8], n: u32) -> Src { Src { c: Cursor::new(b.to_vec()), _t: Tok::new(n) } }

fn pair() -> (Vec<u8>, Vec<u8>) {
    let sq = |x: f64| vec![(x, 0.), (x, 1.), (x + 1., 1.), (x + 1., 0.), (x, 0.)];
    let recs = vec![vec![sq(0.)], vec![sq(1.), sq(5.)], vec![sq(2.)]];
    let fields = [field("NAME", 'C', 4), field("ID", '+', 4)];
    let rows: Vec<Vec<Vec<u8>>> = (0..3u32).map(|i| vec![padr(&[b'a' + i as u8], 4), le(i + 7).to_vec()]).collect();
    (shp_file(&recs, None), dbf_file(&fields, &rows, true))
}
fn sources_left(want: usize, at: &str) -> R {
    let (n, bad) = reg(|r| (r.live.len(), r.bad.first().cloned()));
    if let Some(b) = bad { return Err(format!("{}: {}", at, b)); }
    if n != want { return Err(format!("{}: {} byte sources are alive, expected {}", at, n, want)); }
    Ok(())
}
/// `mode`: 0 records are dropped as they come, 1 all at the end before the reader, 2 after it, 3 the reader is dropped half way,
/// 4 as regions into a topology that outlives the reader.
fn reading(shp: &[u8], dbf: &[u8], mode: u64, cx: &mut Cx) -> R {
    let mut seen = (0u64, 0u64);
    let r = balanced("reading a pair", || {
        reg(|r| *r = Reg::default());
        let mut inner = Cx::new();
        let got = inner.call("opening", || ShapefileReader::new(src(shp, 1), src(dbf, 2), encoding::all::UTF_8))?;
        let mut reader = match got { Err(e) => { drop(e); let r = sources_left(0, "after a failure to open"); reg(|r| *r = Reg::default()); return r; } Ok(r) => r };
        sources_left(2, "after opening")?;
        let mut kept = vec![];
        let mut texts: Vec<String> = vec![];
        let name = reader.get_field("NAME");
        let fields = reader.dbf_fields();
        if mode == 4 {
            let mut b = TopologyBuilder::new();
            for _ in 0..40 {
                match inner.call("converting", || ShapefileGeoIterator::new(&mut reader).next())? { None => break, Some(Ok(g)) => { texts.push(g.data.to_string()); b.add_region(g); } Some(Err(_)) => {} }
            }
            let n = texts.len();
            let overlapping = n > 3 || n == 0; // damaged coordinates may overlap: only dropped then
            drop(reader);
            sources_left(0, "after dropping the reader")?;
            if !overlapping && shp == &pair().0[..] {
                let t = inner.call("building", || b.into_topology())?;
                for (r, x) in t.regions.iter().zip(&texts) { if r.data.to_string() != *x { return Err("a record changed when its reader was dropped".into()); } }
            } else { drop(b); }
        } else {
            for i in 0..40 {
                if mode == 3 && i == 2 { break; }
                match inner.call("reading", || reader.next())? {
                    None => break,
                    Some(Ok(x)) => { if mode != 0 { texts.push(x.to_string()); kept.push(x); } }
                    Some(Err(e)) => drop(e),
                }
            }
            if mode == 1 { kept.clear(); }
            sources_left(2, "before dropping the reader")?;
            drop(reader);
            sources_left(0, "after dropping the reader")?;
            for (x, t) in kept.iter().zip(&texts) { if x.to_string() != *t { return Err(format!("a record reads {} after its reader was dropped, {} before", x, t)); } }
            for x in &kept { for f in fields.iter().chain(name.iter()) { let _ = f.read_string(&x.data); } }
        }
        seen = (texts.len() as u64, hash(&texts));
        reg(|r| *r = Reg::default());
        Ok(())
    });
    reg(|r| *r = Reg::default());
    r?;
    cx.transitions += 5;
    cx.state(&(seen, mode));
    cx.note(if seen.0 > 0 { "records kept" } else { "none kept or rejected" });
    cx.validated += 1;
    Ok(())
}
static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// No file stays open after its reader is gone, whatever happened on opening.
fn on_disk(i: u64, cx: &mut Cx) -> R {
    use topogeo::read::shapefile as s;
    let mut d = Dec(i);
    let (how, cut_s, cut_d, mode) = (d.take(7), d.take(4), d.take(4), d.take(3));
    let (shp, dbf) = pair();
    let cut = |v: &[u8], k: u64| -> Option<Vec<u8>> { match k { 0 => Some(v.to_vec()), 1 => None, 2 => Some(v[..20].to_vec()), _ => Some(v[..v.len() - 9].to_vec()) } };
    let dir = std::env::temp_dir().join(format!("mc-own-{}-{}", std::process::id(), COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    std::fs::create_dir(&dir).map_err(|e| e.to_string())?;
    let (ps, pd) = (dir.join("x.shp"), dir.join("x.dbf"));
    if let Some(b) = cut(&shp, cut_s) { std::fs::write(&ps, b).unwrap(); }
    if let Some(b) = cut(&dbf, cut_d) { std::fs::write(&pd, b).unwrap(); }
    let r = cx.call("opening by path", || {
        let take = match mode { 0 => 0, 1 => 1, _ => 40 };
        match how {
            0 => s::open(&ps, encoding::all::UTF_8).map(|r| r.take(take).count()).is_ok(),
            1 => s::open_utf8(&ps).map(|r| r.take(take).count()).is_ok(),
            2 => s::open_ascii(&ps).map(|r| r.take(take).count()).is_ok(),
            3 => s::open_windows1252(&ps).map(|r| r.take(take).count()).is_ok(),
            4 => s::shp::open(&ps).map(|r| r.take(take).count()).is_ok(),
            5 => s::dbf::open(&pd, encoding::all::UTF_8).map(|r| r.take(take).count()).is_ok(),
            _ => s::dbf::open_ascii(&pd).map(|r| r.take(take).count()).is_ok(),
        }
    });
    let open: Vec<String> = std::fs::read_dir("/proc/self/fd").map(|l| l.filter_map(|f| f.ok()).filter_map(|f| std::fs::read_link(f.path()).ok()).filter(|p| p.starts_with(&dir)).map(|p| p.display().to_string()).collect()).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    cx.note(if r? { "opened" } else { "rejected" });
    cx.state(&i);
    cx.validated += 1;
    if open.is_empty() { Ok(()) } else { Err(format!("still open after the reader was dropped: {:?}", open.iter().map(|p| p.rsplit('/').next().unwrap_or("").to_string()).collect::<Vec<_>>())) }
}

/// One input of a family, each with contents of its own, used and dropped.
fn one_of_many(family: u64, n: u64, cx: &mut Cx) -> R {
    if family < 5 {
        let name = if family == 0 { format!("F{:x}", n) } else { "F".into() };
        let fields = [field(&name, 'C', 8), field("N", 'N', 8), field("I", '+', 4)];
        let row = vec![padr(if family == 1 { format!("t{:x}", n) } else { "t".into() }.as_bytes(), 8), padl(if family == 2 { format!("{}", n) } else { "7".into() }.as_bytes(), 8), le(if family == 2 { n as u32 } else { 7 }).to_vec()];
        let x = if family == 3 { n as f64 * 1.25 } else { 0. };
        let mut shp = shp_file(&[vec![vec![(x, 0.), (x, 1.), (x + 1., 1. + x), (x, 0.)]]], None);
        let mut dbf = dbf_file(&fields, &[row], true);
        if family == 4 { match n % 4 { 0 => { let k = shp.len() - 1 - (n / 4 % 120) as usize; shp.truncate(k); } 1 => { let k = dbf.len() - 1 - (n / 4 % 100) as usize; dbf.truncate(k); } 2 => { shp[100 + (n / 4 % 60) as usize] ^= 1 + (n / 240) as u8; } _ => { dbf[4 + (n / 4 % 28) as usize] ^= 1 + (n / 112) as u8; } } }
        cx.call("reading", || {
            if let Ok(mut r) = ShapefileReader::new(&shp[..], &dbf[..], encoding::all::UTF_8) {
                let f = r.dbf_fields();
                let _ = r.get_field(&name);
                for _ in 0..9 { match r.next() { None => break, Some(Ok(x)) => { for f in f.iter() { let _ = f.read_string(&x.data).map_err(|e| e.to_string()); } let _ = x.to_string(); } Some(Err(e)) => { let _ = e.to_string(); } } }
            }
            if let Ok(mut r) = ShapefileReader::new(&shp[..], &dbf[..], encoding::all::UTF_8) { for g in ShapefileGeoIterator::new(&mut r).take(9).flatten() { let _ = g.to_string(); } }
        })?;
    } else {
        // squares, triangles and a hole somewhere else each time, with other data
        let (x, y) = ((n % 997) as u32 * 40, (n / 7) as u32 * 40);
        let ring = |p: &[(u32, u32)]| { let mut v: Vec<topogeo::geo::Point> = p.iter().map(|q| topogeo::geo::Point(q.0 + x, q.1 + y)).collect(); v.push(v[0]); topogeo::geo::Ring::Points(v.into_boxed_slice()) };
        let reg = |k: u64, o: Vec<topogeo::geo::Ring>, i: Vec<topogeo::geo::Ring>| Region { data: n * 8 + k, outer_rings: o.into_boxed_slice(), inner_rings: i.into_boxed_slice() };
        cx.call("working on a map", || {
            let mut b = TopologyBuilder::new();
            b.add_region(reg(0, vec![ring(&[(0, 0), (5, 1), (10, 0), (10, 10), (0, 10)])], vec![ring(&[(2, 2), (2, 4), (4, 4)])]));
            b.add_region(reg(1, vec![ring(&[(10, 0), (20, 0), (20, 10), (10, 10)]), ring(&[(20, 0), (30, 5), (20, 10)])], vec![]));
            let t = topogeo::normalize(&b.into_topology());
            let c = clip_topology(&t, &topogeo::clip::ClipMask::MaxX(x + 15));
            let c = clip_topology(&c, &topogeo::clip::ClipMask::MinY(y + 3));
            topogeo::simplify(topogeo::normalize(&c), 12).edges.len() + topogeo::simplify(t, 12).edges.len()
        })?;
    }
    Ok(())
}
/// Nothing is kept of inputs that are gone, even where it would be of use if they came again.
fn many(family: u64, cx: &mut Cx) -> R {
    for n in 0..700 { one_of_many(family, n, cx)?; }
    let before = outstanding();
    for n in 700..2700 { one_of_many(family, n, cx)?; }
    let left = outstanding() - before;
    cx.state(&family);
    cx.validated += 2700;
    if left > 6000 { return Err(format!("{} bytes stay allocated after 2000 further inputs were used and dropped", left)); }
    Ok(())
}

fn c24_spaces(th: bool) -> Vec<Space> {
    use Diag::*;
    let s = |m, d, full| hist_space::<[u64; 5]>(m, d, full);
    let mut v = vec![
        s(cfg(sq(2, 2), "0AaB", &[0, 3]), 2, false),
        s(cfg(tri(1, 1, Cross), "0AaB", &[0]), 2, true),
        s(cfg(sq(3, 3), "0A", &[0]), 2, false),
        s(cfg(tri(2, 1, Cross), "0A", &[0]), 2, false),
        s(cfg(sq(2, 2), "0AB", &[0]), 3, false),
        hist_space::<u64>(cfg(sq(2, 2), "0AaB", &[0]), 2, false),
        hist_space::<u32>(cfg(sq(2, 2), "0AaB", &[0]), 2, false),
        fail_space::<[u64; 5]>(cfg(sq(2, 2), "0AaB", &[0]), 2),
        fail_space::<u64>(cfg(tri(1, 1, Cross), "0ABC", &[0]), 2),
        fail_space::<u32>(cfg(sq(3, 3), "0A", &[0]), 1),
    ];
    for m in larger(if th { 1 } else { 0 }) { v.push(s(m, 1, th)); }
    for m in bulk(0) { v.push(s(m, 1, false)); }
    let (a, b) = pair();
    let (na, nb) = (a.len() as u64, b.len() as u64);
    let (a1, b1) = (a.clone(), b.clone());
    v.push(Space::new("readers: every truncation", (na + nb + 2) * 5, move |i, cx| {
        let (mode, k) = (i % 5, i / 5);
        if k <= na { reading(&a1[..k as usize], &b1, mode, cx) } else { reading(&a1, &b1[..(k - na - 1) as usize], mode, cx) }
    }, |i| format!("way of dropping {}, truncation {}", i % 5, i / 5)));
    let vals: &'static [u8] = &[0, 1, 2, 5, 32, 127, 128, 254, 255];
    let nv = vals.len() as u64;
    v.push(Space::new("readers: every byte replaced", (na + nb) * nv * 5, move |i, cx| {
        let mut d = Dec(i);
        let (mode, v, k) = (d.take(5), *d.pick(vals), d.0 as usize);
        let (mut x, mut y) = (a.clone(), b.clone());
        if k < x.len() { x[k] = v } else { let l = x.len(); y[k - l] = v }
        reading(&x, &y, mode, cx)
    }, |i| format!("case {}", i)));
    v.push(Space::new("many different inputs", 6, many, |i| format!("2700 inputs that differ in their {}", ["field names", "texts", "numbers", "coordinates", "damages", "maps"][i as usize])));
    v.push(Space::new("files", 7 * 4 * 4 * 3, on_disk, |i| format!("case {}", i)));
    if th {
        v.extend(vec![
            s(cfg(sq(3, 2), "0AaB", &[0, 1, 3]), 2, true),
            s(cfg(sq(3, 3), "0AB", &[0]), 2, false),
            s(cfg(sq(2, 2), "0AaB", &[0, 3]), 3, false),
            s(cfg(tri(1, 1, Cross), "0AaB", &[0, 2]), 3, true),
            fail_space::<u64>(cfg(sq(3, 2), "0AaB", &[0, 3]), 2),
            fail_space::<u32>(cfg(sq(2, 2), "0AaB", &[0]), 3),
        ]);
    }
    v
}

pub fn props() -> Vec<Prop> { vec![Prop { id: "C24", level: "model_checking", spaces: c24_spaces }] }
