//! C23: the work an operation takes grows in proportion to its input (up to a logarithm). The cost of one execution is
//! the number of machine instructions it executes, counted by callgrind: no clock, no load of the machine enters.
use crate::core::*;
use crate::files::*;
use crate::geom::*;
use crate::Prop;
use std::io::Cursor;
use std::process::{Command, Stdio};
use topogeo::geo::{Edge, Point, Ring};
use topogeo::read::shapefile::dbf::DbfReader;
use topogeo::read::shapefile::shp::ShpReader;
use topogeo::read::shapefile::{ShapefileGeoIterator, ShapefileReader};
use topogeo::topology::{Topology, TopologyBuilder};

/// Valgrind's client requests (outside valgrind they do nothing).
fn request(code: usize, arg: usize) {
    let args: [usize; 6] = [(('C' as usize) << 24 | ('T' as usize) << 16) + code, arg, 0, 0, 0, 0];
    unsafe { std::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx", in("rax") args.as_ptr(), inout("rdx") 0usize => _); }
}
/// What is counted: everything `f` does. Every call ends with a dump of the counter.
fn measure<T>(f: impl FnOnce() -> T) -> T {
    request(1, 0); // zero
    request(2, 0); // collect
    let ((r, peak), moved) = crate::alloc::traffic(|| crate::alloc::metered(f));
    request(2, 0); // stop collecting
    request(3, c"measured".as_ptr() as usize); // dump
    println!("peak {} {}", peak, moved);
    r
}

type Lab = fn(usize, usize, usize) -> (u32, u32); // (region, group); region 0 = nothing
/// Labellings of a k x k grid; cells of one region and group are given as one outline (or all cells on their own).
const GRIDS: &[(&str, Lab)] = &[
    ("one region per cell", |i, j, k| ((j * k + i) as u32 + 1, 0)),
    ("one region per row", |_, j, _| (j as u32 + 1, 0)),
    ("one region, one piece per row", |_, j, _| (1, j as u32)),
    ("one region, one piece per cell", |i, j, k| (1, (j * k + i) as u32)),
    ("two regions, checkered", |i, j, _| (1 + ((i + j) % 2) as u32, 0)),
    ("one region, every second cell", |i, j, _| (((i + j) % 2) as u32, 0)),
    ("a sieve of holes", |i, j, k| (if i % 2 == 1 && j % 2 == 1 && i + 1 < k && j + 1 < k { 0 } else { 1 }, 0)),
    ("a sieve of enclaves", |i, j, k| (if i % 2 == 1 && j % 2 == 1 && i + 1 < k && j + 1 < k { (j * k + i) as u32 + 2 } else { 1 }, 0)),
    ("a sieve in pieces", |i, j, k| (if i % 2 == 1 && j % 2 == 1 && i + 1 < k && j + 1 < k { 0 } else { 1 }, (j * k + i) as u32)),
    ("holes filled by the same region", |i, j, k| if i % 2 == 1 && j % 2 == 1 && i + 1 < k && j + 1 < k { (1, 1) } else { (1, 0) }),
    ("islands", |i, j, _| (if i % 2 == 0 && j % 2 == 0 { 1 } else { 0 }, 0)),
    ("islands, a region each", |i, j, k| (if i % 2 == 0 && j % 2 == 0 { (j * k + i) as u32 + 1 } else { 0 }, 0)),
    ("nested frames, a region each", |i, j, k| (i.min(j).min(k - 1 - i).min(k - 1 - j) as u32 + 1, 0)),
    ("nested frames, alternating", |i, j, k| ((i.min(j).min(k - 1 - i).min(k - 1 - j) % 2) as u32, 0)),
    ("a comb", |i, j, _| (if j == 0 || i % 2 == 0 { 1 } else { 0 }, 0)),
    ("two combs", |i, j, k| (if j == 0 || (i % 2 == 0 && j + 1 < k) { 1 } else { 2 }, 0)),
    ("a snake and the rest", |i, j, k| (if j % 2 == 0 || (j % 4 == 1 && i + 1 == k) || (j % 4 == 3 && i == 0) { 1 } else { 2 }, 0)),
    ("a block in pieces among single cells", |i, j, k| if i > 0 && j > 0 && i + 1 < k && j + 1 < k { (1, (j * k + i) as u32) } else { ((j * k + i) as u32 + 2, 0) }),
];
fn square(x: i64, y: i64, s: i64) -> Vec<P> { vec![(x, y), (x + s, y), (x + s, y + s), (x, y + s)] }
fn reg(data: u32, outer: Vec<Vec<P>>, inner: Vec<Vec<P>>) -> PRegion { PRegion { data, outer: outer.into_iter().map(|pts| PRing { pts }).collect(), inner: inner.into_iter().map(|pts| PRing { pts }).collect() } }
fn tooth(i: usize, a: i64, b: i64) -> i64 { if i % 2 == 0 { a } else { b } }
/// Families with one parameter: about n segments.
const LINES: &[(&str, fn(usize) -> Vec<PRegion>)] = &[
    ("a row of squares, a region each", |n| (0..n as i64).map(|i| reg(i as u32, vec![square(10 + 10 * i, 10, 10)], vec![])).collect()),
    ("a row of squares, one region", |n| vec![reg(7, (0..n as i64).map(|i| square(10 + 10 * i, 10, 10)).collect(), vec![])]),
    ("a long row under many squares", |n| { // one region of n pieces, each with a neighbour of its own above and below
        let mut v = vec![reg(0, (0..n as i64).map(|i| square(10 + 10 * i, 20, 10)).collect(), vec![])];
        for i in 0..n as i64 { v.push(reg(1 + 2 * i as u32, vec![square(10 + 10 * i, 10, 10)], vec![])); v.push(reg(2 + 2 * i as u32, vec![square(10 + 10 * i, 30, 10)], vec![])); }
        v
    }),
    ("a large square with many neighbours", |n| {
        let w = 10 * n as i64;
        let mut top: Vec<P> = (0..=n as i64).map(|i| (10 + 10 * i, 20)).collect();
        top.extend([(10 + w, 20 + w), (10, 20 + w)]);
        let mut v = vec![reg(0, vec![top], vec![])];
        for i in 0..n as i64 { v.push(reg(1 + i as u32, vec![square(10 + 10 * i, 10, 10)], vec![])); }
        v
    }),
    ("a zigzag between two regions", |n| {
        let z: Vec<P> = (0..=n).map(|i| (10 + 10 * i as i64, 1000 + tooth(i, 0, 7))).collect();
        let (x0, x1) = (10, 10 + 10 * n as i64);
        let mut a = z.clone(); a.extend([(x1, 2000), (x0, 2000)]);
        let mut b: Vec<P> = vec![(x0, 10), (x1, 10)]; b.extend(z.iter().rev());
        vec![reg(1, vec![a], vec![]), reg(2, vec![b], vec![])]
    }),
    ("a comb of triangles", |n| { let mut z: Vec<P> = (0..=n).map(|i| (10 + 10 * i as i64, tooth(i, 100, 1100))).collect(); z.extend([(10 + 10 * n as i64, 5000), (10, 5000)]); vec![reg(1, vec![z], vec![])] }),
    ("rising teeth", |n| { let mut z: Vec<P> = (0..=n).map(|i| (10 + 10 * i as i64, 2_000_000 - tooth(i, 0, 3 * i as i64))).collect(); z.extend([(10 + 10 * n as i64, 3_000_000), (10, 3_000_000)]); vec![reg(1, vec![z], vec![])] }),
    ("a jagged line", |n| { let mut z: Vec<P> = (0..=n).map(|i| (10 + 10 * i as i64, 2_000_000 + (i as u32).wrapping_mul(2654435761) as i64 % 1_000_000)).collect(); z.extend([(10 + 10 * n as i64, 4_000_000), (10, 4_000_000)]); vec![reg(1, vec![z], vec![])] }),
    ("a parabola", |n| { let mut z: Vec<P> = (0..=n).map(|i| (10 + i as i64, 10 + (i * i) as i64)).collect(); z.push((10, 10 + (n * n) as i64)); vec![reg(1, vec![z], vec![])] }),
    ("a straight line of many points", |n| { let mut z: Vec<P> = (0..=n).map(|i| (10 + 3 * i as i64, 10)).collect(); z.extend([(10 + 3 * n as i64, 99), (10, 99)]); vec![reg(1, vec![z], vec![])] }),
    ("a fan of triangles, a region each", |n| fan(n, |i| (i as u32 + 1, 0))),
    ("a fan of triangles, one region", |n| fan(n, |_| (1, 0))),
    ("a fan, every second triangle", |n| fan(n, |i| (if i % 2 == 0 { 1 } else { 0 }, 0))),
    ("a chain of touching squares", |n| vec![reg(1, (0..n as i64).map(|i| square(10 + 10 * i, 10 + 10 * i, 10)).collect(), vec![])]),
    ("a chain of touching squares in one outline", |n| { let n = n as i64; let mut z: Vec<P> = vec![]; for i in 0..n { z.extend([(10 + 10 * i, 10 + 10 * i), (20 + 10 * i, 10 + 10 * i)]); } for i in (0..n).rev() { z.extend([(20 + 10 * i, 20 + 10 * i), (10 + 10 * i, 20 + 10 * i)]); } vec![reg(1, vec![z], vec![])] }),
    ("holes in a row", |n| vec![reg(1, vec![vec![(10, 10), (20 + 20 * n as i64, 10), (20 + 20 * n as i64, 40), (10, 40)]], (0..n as i64).map(|i| square(20 + 20 * i, 20, 10)).collect())]),
    ("zero-area rings among squares", |n| (0..n as i64).map(|i| if i % 2 == 0 { reg(i as u32, vec![square(10 + 10 * i, 10, 10)], vec![]) } else { reg(i as u32, vec![vec![(10 + 10 * i, 10), (15 + 10 * i, 10), (20 + 10 * i, 10)]], vec![]) }).collect()),
];
fn fan(n: usize, f: impl Fn(usize) -> (u32, u32)) -> Vec<PRegion> {
    // a fan seen from below: triangles between (x_i, 10) and the common point far below
    let c = (10 + 5 * n as i64, 1_000_000);
    let mut v: Vec<PRegion> = vec![];
    for i in 0..n {
        let (r, _) = f(i);
        if r == 0 { continue; }
        let t = vec![(10 + 10 * i as i64, 10), (20 + 10 * i as i64, 10), c];
        match v.iter_mut().rev().find(|x| x.data == r) { Some(x) => x.outer.push(PRing { pts: t }), None => v.push(reg(r, vec![t], vec![])) }
        if v.len() > 1 && v[v.len() - 1].data == v[v.len() - 2].data { unreachable!() }
    }
    v
}

fn grid_map(f: &dyn Fn(usize, usize, usize) -> (u32, u32), cells: bool, n: usize) -> Vec<PRegion> {
    let k = ((n as f64).sqrt().round() as usize).max(4);
    let xs: Vec<i64> = (0..=k as i64).map(|i| 12 + 10 * i).collect();
    let c = grid("cost", &xs, &xs, Diag::None, &[]);
    let lab: Vec<(u32, u32)> = (0..k * k).map(|x| f(x % k, x / k, k)).collect();
    let mut seen: std::collections::BTreeMap<(u32, u32), usize> = Default::default();
    let mut alphabet: Vec<Option<(u32, u32)>> = vec![None];
    let labels: Vec<usize> = lab.iter().map(|l| if l.0 == 0 { 0 } else { *seen.entry(*l).or_insert_with(|| { alphabet.push(Some(*l)); alphabet.len() - 1 }) }).collect();
    let m = LMap::new(&labels, &alphabet);
    if cells { m.present_faces(&c) } else { m.present(&c, 0) }
}

/// What a cell of a repeated tile can be: nothing, region A, its second piece, a piece of A of its own, a region of its own.
const TILE: u64 = 5;
fn tile_lab(t: u64, w: usize, h: usize, i: usize, j: usize, k: usize) -> (u32, u32) {
    let d = t / TILE.pow(((j % h) * w + i % w) as u32) % TILE;
    match d { 0 => (0, 0), 1 => (1, 0), 2 => (1, 1), 3 => (1, 2 + (j * k + i) as u32), _ => (2 + (j * k + i) as u32, 0) }
}
#[derive(Clone, Copy)]
pub enum Fam { Grid(usize, bool), Line(usize), Tile(u64, usize, usize), Read(usize) }
impl Fam {
    fn parse(s: &str) -> Fam { let v: Vec<usize> = s[1..].split(',').map(|x| x.parse().unwrap()).collect(); match &s[..1] { "g" => Fam::Grid(v[0], v[1] == 1), "l" => Fam::Line(v[0]), "t" => Fam::Tile(v[0] as u64, v[1], v[2]), _ => Fam::Read(v[0]) } }
    fn arg(&self) -> String { match *self { Fam::Grid(g, c) => format!("g{},{}", g, c as u8), Fam::Line(l) => format!("l{}", l), Fam::Tile(t, w, h) => format!("t{},{},{}", t, w, h), Fam::Read(r) => format!("r{}", r) } }
    fn name(&self) -> String { match *self { Fam::Grid(g, c) => format!("{}{}", GRIDS[g].0, if c { " / cell by cell" } else { "" }), Fam::Line(l) => LINES[l].0.to_string(), Fam::Read(r) => format!("reading: {}", READS[r]),
        Fam::Tile(t, w, h) => format!("a grid of tiles {:?}", (0..h).map(|j| (0..w).map(|i| ["0", "A", "a", "p", "R"][(t / TILE.pow((j * w + i) as u32) % TILE) as usize]).collect::<String>()).collect::<Vec<_>>()) } }
    fn op(&self, i: usize) -> &'static str { if let Fam::Read(r) = *self { READS[r] } else { OPS[i] } }
    fn make(&self, n: usize) -> Vec<PRegion> { match *self { Fam::Grid(g, c) => grid_map(&|i, j, k| GRIDS[g].1(i, j, k), c, n), Fam::Tile(t, w, h) => grid_map(&|i, j, k| tile_lab(t, w, h, i, j, k), false, n), Fam::Line(l) => LINES[l].1(n), Fam::Read(_) => unreachable!() } }
}
fn size_of(rs: &[PRegion]) -> u64 { rs.iter().map(|r| 1 + r.outer.iter().chain(&r.inner).map(|x| 1 + x.pts.len() as u64).sum::<u64>()).sum() }

fn real(rs: &[PRegion]) -> Vec<topogeo::geo::Region<u32>> { rs.iter().map(|r| to_region(r, r.data)).collect() }
fn built(rs: &[PRegion]) -> Topology<u32> { let mut b = TopologyBuilder::new(); for r in real(rs) { b.add_region(r); } b.into_topology() }

/// Every operation on one input.
fn run_topo(f: Fam, n: usize) -> u64 {
    let rs = f.make(n);
    if rs.is_empty() { return 0; }
    let size = size_of(&rs);
    let mid = |axis: usize| { let c = || rs.iter().flat_map(|r| r.outer.iter().flat_map(|x| x.pts.iter().map(|p| if axis == 0 { p.0 } else { p.1 }))); let (lo, hi) = (c().min().unwrap(), c().max().unwrap()); lo + (hi - lo) / 2 + 1 };
    let mids = [mid(0), mid(1)];
    let clip = |t: &Topology<u32>, k: u64| { let m = M::kind(k, mids[(k / 2) as usize]).real(); measure(|| topogeo::clip::clip_topology(t, &m)) };
    fn keep<T>(t: T) { std::mem::forget(t) }
    let r = real(&rs);
    let t = measure(|| { let mut b = TopologyBuilder::new(); for x in r { b.add_region(x); } b.into_topology() });
    let t = measure(|| topogeo::simplify(t, 0));
    let nt = measure(|| topogeo::normalize(&t));
    keep(measure(|| topogeo::normalize(&nt)));
    let c = clip(&t, 0);
    keep(clip(&t, 1)); keep(clip(&t, 2)); keep(clip(&t, 3));
    keep(clip(&nt, 0)); keep(clip(&nt, 1)); keep(clip(&nt, 2)); keep(clip(&nt, 3));
    keep(clip(&c, 2));
    keep(measure(|| topogeo::simplify(t, u64::MAX)));
    let nt = measure(|| topogeo::simplify(nt, 100));
    keep(measure(|| topogeo::simplify(nt, u64::MAX)));
    let r = real(&rs);
    keep(measure(|| r.iter().map(|x| x.to_string()).collect::<String>()));
    keep(measure(|| r.iter().flat_map(|x| x.outer_rings.iter().chain(x.inner_rings.iter())).map(|x| { let e = Ring::Edges(x.edges()); (e.points(), e.edges(), e.area2(), x.points(), x.winding_order(), e.winding_order(), e.to_string().len()) }).collect::<Vec<_>>()));
    size
}
const OPS: &[&str] = &["build", "simplify by 0", "normalize", "normalize again", "clip MinX", "clip MaxX", "clip MinY", "clip MaxY", "normalized, clip MinX", "normalized, clip MaxX", "normalized, clip MinY", "normalized, clip MaxY", "clip, clip across", "simplify by max", "normalized, simplify by 100", "normalized, simplified, simplify by max", "print", "ring forms"];

const READS: &[&str] = &["shp: records", "shp: points of one ring", "shp: rings of one record", "dbf: records", "dbf: fields", "dbf: fields by name", "pair: records", "regions: records", "regions: points of one ring", "regions: rings of one record", "printing records", "printing a record of many fields", "shp: unreadable records", "shp: byte by byte", "path: clip", "ring of edges"];
fn ring_f(k: usize, m: usize) -> Vec<F> { let mut v: Vec<F> = (0..m).map(|i| ((k * 10 + i) as f64, if i == 0 { 0. } else { 5. + (i % 2) as f64 })).collect(); let p = v[0]; v.push(p); v }
fn run_read(op: usize, n: usize) -> u64 {
    let shp = |recs: usize, rings: usize, pts: usize| shp_file(&(0..recs).map(|r| (0..rings).map(|q| ring_f(r * rings + q, pts)).collect()).collect::<Vec<_>>(), None);
    let dbf = |recs: usize, fields: usize| { let fs: Vec<Field> = (0..fields).map(|i| field(&format!("f{}", i), if i % 2 == 0 { 'C' } else { 'N' }, 4)).collect(); dbf_file(&fs, &(0..recs).map(|r| (0..fields).map(|i| padl(((r + i) % 1000).to_string().as_bytes(), 4)).collect()).collect::<Vec<_>>(), true) };
    let e = encoding::all::UTF_8 as encoding::EncodingRef;
    let drain_shp = |b: &[u8]| { let b = b.to_vec(); std::mem::forget(measure(move || ShpReader::new(Cursor::new(b)).unwrap().map(|r| r.is_ok()).collect::<Vec<_>>())); };
    let drain_dbf = |b: &[u8]| { let b = b.to_vec(); std::mem::forget(measure(move || { let r = DbfReader::new(Cursor::new(b), e).unwrap(); let fs = r.meta.fields.clone(); r.map(|x| { let x = x.unwrap(); fs.iter().map(|f| f.read_string(&x).unwrap().len()).sum::<usize>() }).collect::<Vec<_>>() })); };
    let pair = |s: &[u8], d: &[u8], geo: bool| { let (s, d) = (s.to_vec(), d.to_vec()); std::mem::forget(measure(move || { let mut r = ShapefileReader::new(Cursor::new(s), Cursor::new(d), e).unwrap(); if geo { ShapefileGeoIterator::new(&mut r).map(|x| x.unwrap().outer_rings.len()).sum::<usize>() } else { r.by_ref().map(|x| x.unwrap().rings.len()).sum::<usize>() } })); };
    let size;
    match READS[op] {
        "shp: records" => { let b = shp(n, 1, 4); size = b.len(); drain_shp(&b) }
        "shp: points of one ring" => { let b = shp(1, 1, n); size = b.len(); drain_shp(&b) }
        "shp: rings of one record" => { let b = shp(1, n, 4); size = b.len(); drain_shp(&b) }
        "shp: unreadable records" => { let mut b = shp(n, 1, 4); for i in 0..n { b[100 + (8 + 48 + 80) * i + 8] = 3; } size = b.len(); drain_shp(&b) }
        "shp: byte by byte" => { let b = shp(n / 8, 1, 4); size = b.len(); let mut s = Source::new(&b); s.chunk = 1; std::mem::forget(measure(move || ShpReader::new(s).unwrap().map(|r| r.is_ok()).collect::<Vec<_>>())); }
        "dbf: records" => { let b = dbf(n, 3); size = b.len(); drain_dbf(&b) }
        "dbf: fields" => { let b = dbf(8, n.min(16000) / 8); size = b.len(); drain_dbf(&b) }
        "dbf: fields by name" => { let b = dbf(n, 8); size = b.len(); std::mem::forget(measure(move || { let mut r = DbfReader::new(Cursor::new(b), e).unwrap(); let mut t = 0; while let Some(x) = r.next() { t += r.get_field("f3").unwrap().read_string(&x.unwrap()).unwrap().len(); } t })); }
        "pair: records" => { let (s, d) = (shp(n, 1, 4), dbf(n, 3)); size = s.len() + d.len(); pair(&s, &d, false) }
        "regions: records" => { let (s, d) = (shp(n, 1, 4), dbf(n, 3)); size = s.len() + d.len(); pair(&s, &d, true) }
        "regions: points of one ring" => { let (s, d) = (shp(1, 1, n), dbf(1, 3)); size = s.len() + d.len(); pair(&s, &d, true) }
        "regions: rings of one record" => { let (s, d) = (shp(1, n, 4), dbf(1, 3)); size = s.len() + d.len(); pair(&s, &d, true) }
        "printing records" => { let (s, d) = (shp(n, 1, 4), dbf(n, 3)); size = s.len() + d.len(); std::mem::forget(measure(move || ShapefileReader::new(Cursor::new(s), Cursor::new(d), e).unwrap().map(|x| x.unwrap().to_string().len()).sum::<usize>())); }
        "printing a record of many fields" => { let (s, d) = (shp(1, n, 4), dbf(1, n.min(16000) / 8)); size = s.len() + d.len(); std::mem::forget(measure(move || ShapefileReader::new(Cursor::new(s), Cursor::new(d), e).unwrap().map(|x| x.unwrap().to_string().len()).sum::<usize>())); }
        "path: clip" => { let p: Vec<Point> = (0..n).map(|i| Point(i as u32 * 3, tooth(i, 10, 30) as u32)).collect(); size = n; std::mem::forget(measure(move || topogeo::clip::edge::clip_edge(&p, &topogeo::clip::ClipMask::MinY(20)))); }
        _ => { let p: Vec<Point> = (0..n).map(|i| Point(i as u32 * 3, tooth(i, 10, 30) as u32)).collect(); let mut es: Vec<Edge> = p.windows(2).map(|w| Edge(w.to_vec().into_boxed_slice())).collect(); es.push(Edge(vec![p[n - 1], p[0]].into_boxed_slice())); let r = Ring::Edges(es.into_boxed_slice()); size = n; std::mem::forget(measure(|| (r.points(), r.edges(), r.area2(), r.winding_order(), r.to_string()))); }
    }
    size as u64
}

/// `mc cost <family> <n>`: every operation on this input once, with its peak memory; ends with the size of the input.
pub fn child(family: &str, n: &str) {
    crate::alloc::plain();
    let (f, n) = (Fam::parse(family), n.parse().unwrap());
    println!("size {}", if let Fam::Read(r) = f { run_read(r, n) } else { run_topo(f, n) });
}

const PATIENCE_S: u64 = 300;
/// Size of the input and, per operation, [instructions executed, bytes held at the peak, bytes moved].
fn cost(f: Fam, n: usize) -> Result<(u64, Vec<[u64; 3]>), String> {
    let dir = std::env::temp_dir().join(format!("mc-cost-{}-{}-{}", std::process::id(), f.arg(), n));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let file = |x: &str| std::fs::File::create(dir.join(x)).map(Stdio::from).map_err(|e| e.to_string());
    let mut ch = Command::new("valgrind").args(["--tool=callgrind", "--collect-atstart=no", "-q"]).arg(format!("--callgrind-out-file={}/o", dir.display()))
        .arg(std::env::current_exe().unwrap()).args(["cost", &f.arg(), &n.to_string()]).stdin(Stdio::null()).stdout(file("out")?).stderr(file("err")?).spawn().expect("valgrind does not run");
    let t0 = std::time::Instant::now();
    let st = loop {
        if let Some(st) = ch.try_wait().map_err(|e| e.to_string())? { break Some(st); }
        if FAILED.load(std::sync::atomic::Ordering::SeqCst) { let _ = ch.kill(); let _ = ch.wait(); let _ = std::fs::remove_dir_all(&dir); return Ok((0, vec![])); }
        if t0.elapsed().as_secs() > PATIENCE_S { let _ = ch.kill(); let _ = ch.wait(); break None; }
        std::thread::sleep(std::time::Duration::from_millis(10));
    };
    let text = |x: &str| std::fs::read_to_string(dir.join(x)).unwrap_or_default();
    let (out, err) = (text("out"), text("err"));
    let counts: Vec<Option<u64>> = (1..).map(|i| std::fs::read_to_string(dir.join(format!("o.{}", i)))).take_while(|x| x.is_ok())
        .map(|x| x.unwrap().lines().find_map(|l| l.strip_prefix("totals: ")).and_then(|x| x.trim().parse().ok())).collect();
    let _ = std::fs::remove_dir_all(&dir);
    let peaks: Vec<[u64; 2]> = out.lines().filter_map(|l| l.strip_prefix("peak ")).map(|x| { let mut w = x.split(' ').map(|x| x.parse().unwrap()); [w.next().unwrap(), w.next().unwrap()] }).collect();
    let Some(st) = st else { return Err(format!("input of about {} elements: {} was not done after {} s", n, f.op(peaks.len().min(OPS.len() - 1)), PATIENCE_S)) };
    if !st.success() { return Err(format!("input of about {} elements: {} failed: {:?} {}", n, f.op(peaks.len().min(OPS.len() - 1)), st, err.lines().take(3).collect::<Vec<_>>().join(" / "))); }
    let size = out.lines().find_map(|l| l.strip_prefix("size ")).and_then(|x| x.parse().ok()).expect("no size");
    assert!(peaks.len() == counts.len() && counts.iter().all(|c| c.is_some()), "callgrind gave {:?} for {} operations: {}", counts, peaks.len(), err);
    Ok((size, counts.into_iter().flatten().zip(peaks).map(|(c, p)| [c, p[0], p[1]]).collect()))
}

/// Growing an input `k` times may multiply the instructions by at most 2 k (an n log n algorithm at these sizes:
/// 1.3 k) and the bytes by at most 4 k (a growing vector holds up to three times what is in it).
const SLACK: [f64; 3] = [2.0, 4.0, 4.0];
/// Costs below these are start-up, not growth.
const LEAST: [u64; 3] = [20_000, 4096, 8192];
fn check(f: Fam, ns: &[usize], cx: &mut Cx) -> R {
    let mut last: Option<(u64, Vec<[u64; 3]>)> = None;
    for &n in ns {
        let c = cost(f, n)?;
        if c.0 == 0 { return Ok(()); } // another case has failed
        cx.transitions += c.1.len() as u64;
        for (i, x) in c.1.iter().enumerate() { cx.state(&(f.arg(), i, n, x[1])); }
        if let Some(l) = &last {
            if l.1.len() != c.1.len() { return Err(format!("{} operations, then {}", l.1.len(), c.1.len())); }
            let k = c.0 as f64 / l.0 as f64;
            for (i, (a, b)) in l.1.iter().zip(&c.1).enumerate() {
                cx.validated += 1;
                let by: Vec<f64> = (0..3).map(|j| b[j] as f64 / a[j].max(LEAST[j]) as f64 / k).collect();
                if std::env::var("MC_COST").is_ok() { println!("{:.2} {:.2} {:.2} {}: {} {:?} {:?} {:?}", by[0], by[1], by[2], f.name(), f.op(i), (l.0, c.0), a, b); }
                for j in 0..3 {
                    if by[j] > SLACK[j] { return Err(format!("{}: from size {} to {} ({:.1} times) the {} went from {} to {} ({:.1} times)", f.op(i), l.0, c.0, k, ["instructions executed", "bytes held at the peak", "bytes copied, filled or allocated"][j], a[j], b[j], by[j] * k)); }
                }
            }
        }
        last = Some(c);
    }
    Ok(())
}
fn space(name: &str, fams: Vec<Fam>, ns: &'static [usize]) -> Space {
    let g = fams.clone();
    Space::new(format!("{} {:?}", name, ns).replace(' ', ""), fams.len() as u64, move |i, cx| check(fams[i as usize], ns, cx), move |i| format!("{}, sizes about {:?}", g[i as usize].name(), ns))
}
fn c23(thorough: bool) -> Vec<Space> {
    let grids: Vec<Fam> = (0..GRIDS.len()).flat_map(|g| [Fam::Grid(g, false), Fam::Grid(g, true)]).collect();
    let lines: Vec<Fam> = (0..LINES.len()).map(Fam::Line).collect();
    let reads: Vec<Fam> = (0..READS.len()).map(Fam::Read).collect();
    let tiles = |w: usize, h: usize| -> Vec<Fam> { (1..TILE.pow((w * h) as u32)).map(|t| Fam::Tile(t, w, h)).collect() };
    let mut v = vec![space("reading", reads.clone(), &[1024, 8192]), space("lines", lines.clone(), &[400, 3200]), space("grids", grids.clone(), &[256, 2025]), space("lines", lines.clone(), &[3000, 24000]), space("grids", grids.clone(), &[2025, 16129]), space("tiles1x2", tiles(1, 2), &[256, 2025]), space("tiles2x1", tiles(2, 1), &[256, 2025])];
    if thorough { v.extend([space("tiles2x2", tiles(2, 2), &[400, 3136]), space("tiles3x1", tiles(3, 1), &[400, 3136]), space("lines", lines, &[20000, 160000]), space("grids", grids, &[12544, 100489]), space("reading", reads, &[15000, 120000])]); }
    v
}

pub fn props() -> Vec<Prop> { vec![Prop { id: "C23", level: "model_checking", spaces: c23 }] }
