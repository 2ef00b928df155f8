//! C25: readers, fields and records do not influence one another: all interleavings of what can be done with two readers.
use crate::core::*;
use crate::files::*;
use crate::Prop;
use std::io::Cursor;
use topogeo::geo::Region;
use topogeo::read::shapefile::dbf::DbfReader;
use topogeo::read::shapefile::shp::ShpReader;
use topogeo::read::shapefile::{DbfField, DbfRecord, ShapefileGeoIterator, ShapefileReader};

pub type Bytes = (Vec<u8>, Vec<u8>);
/// One pair of files: its shape records and attribute records in order, and where each file is cut.
pub fn files(kind: u64) -> Bytes {
    let sq = |x: f64| vec![(x, 0.), (x, 1.), (x + 1.5, 1.), (x + 1.5, 0.25), (x, 0.)];
    let base = 100. * kind as f64;
    let (shps, dbfs): (&str, &str) = match kind { 0 => ("ggg", "ggg"), 1 => ("gbg", "ggg"), 2 => ("gg", "ggg"), 3 => ("ggg", "gg"), 4 => ("ggg", "ggc"), 5 => ("ggc", "ggg"), 6 => ("", ""), 7 => ("gmgb", "gvgg"), 8 => ("mgmgg", "gggvg"), 9 => ("gggg", "gxgg"), 10 => ("gxgg", "gggg"), _ => ("sgsss", "ggggg") };
    let mut recs = vec![];
    for (i, c) in shps.chars().enumerate() {
        let x = base + i as f64;
        let mut p = polygon(&if c == 'm' { vec![sq(x), sq(x + 20.), sq(x + 40.).into_iter().rev().collect()] } else { vec![sq(x)] });
        if c == 'b' { p[0] = 7; }
        if c == 's' { p = vec![0; 4]; }
        recs.push((10 * kind as u32 + i as u32, p));
    }
    let mut shp = shp_raw(&recs, [base - 1., -1., base + 60., 3.]);
    if let Some(k) = shps.find('x') { shp.truncate(100 + recs[..k].iter().map(|r| 8 + r.1.len()).sum::<usize>() + 50); }
    if shps.ends_with('c') { let n = shp.len(); shp.truncate(n - 40); }
    // the kinds differ in their fields, too
    let fields = if kind % 2 == 0 { vec![field("NAME", 'C', 6), field("N", 'N', 3), field("ID", '+', 4)] } else { vec![field("ID", '+', 4), field("EXTRA", 'C', 2), field("N", 'N', 4), field("NAME", 'C', 3)] };
    let rows: Vec<Vec<Vec<u8>>> = dbfs.chars().enumerate().map(|(i, c)| fields.iter().map(|f| match (f.ty, f.name.as_slice()) {
        (b'N', _) => if c == 'v' { padl(b"x1", f.len as usize) } else { padl(format!("{}", 10 * kind as usize + i).as_bytes(), f.len as usize) },
        (b'+', _) => le((kind as u32) << 16 | i as u32).to_vec(),
        _ => padr(&[b'A' + kind as u8, b'a' + i as u8], f.len as usize),
    }).collect()).collect();
    let mut dbf = dbf_file(&fields, &rows, false);
    if let Some(k) = dbfs.find('x') { let l = (dbf.len() - 33 - 32 * fields.len()) / dbfs.len(); dbf.truncate(33 + 32 * fields.len() + l * k + 3); }
    if dbfs.ends_with('c') { let n = dbf.len(); dbf.truncate(n - 3); }
    (shp, dbf)
}
const KINDS: u64 = 12;

type Vals = Vec<Result<String, String>>;
fn values(fields: &[DbfField], r: &DbfRecord) -> Vals { fields.iter().map(|f| f.read_string(r).map_err(|e| e.to_string())).collect() }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Seen { shape: String, bytes: Vec<u8>, vals: Vals, text: String }
type Item = Option<Result<Seen, String>>;
type Reader = ShapefileReader<Cursor<Vec<u8>>, Cursor<Vec<u8>>>;
fn open(b: &Bytes) -> Result<Reader, String> { ShapefileReader::new(Cursor::new(b.0.clone()), Cursor::new(b.1.clone()), encoding::all::UTF_8).map_err(|e| e.to_string()) }

struct Plain { items: Vec<Item>, regions: Vec<Item>, names: Vec<String>, bbox: [u64; 4] }
fn bbox_bits(r: &Reader) -> [u64; 4] { let b = r.bounding_box(); [b.0, b.1, b.2, b.3].map(f64::to_bits) }
fn rings_text(g: &Region<DbfRecord>) -> String { let f = |l: &[topogeo::geo::Ring]| l.iter().map(|r| r.to_string()).collect::<Vec<_>>().join("; "); format!("outer {} inner {}", f(&g.outer_rings), f(&g.inner_rings)) }
fn of_record(x: Option<Result<topogeo::read::shapefile::shapefile::ShapefileRecord, topogeo::read::shapefile::ShapefileError>>, fields: &[DbfField]) -> (Item, Option<DbfRecord>) {
    match x {
        None => (None, None),
        Some(Err(e)) => (Some(Err(e.to_string())), None),
        Some(Ok(x)) => (Some(Ok(Seen { shape: format!("{:x?}", ring_bits(&x.rings)), bytes: x.data.bytes.to_vec(), vals: values(fields, &x.data), text: x.data.to_string() })), Some(x.data)),
    }
}
fn of_region(x: Option<Result<Region<DbfRecord>, topogeo::read::shapefile::ShapefileError>>, fields: &[DbfField]) -> (Item, Option<DbfRecord>) {
    match x {
        None => (None, None),
        Some(Err(e)) => (Some(Err(e.to_string())), None),
        Some(Ok(x)) => (Some(Ok(Seen { shape: rings_text(&x), bytes: x.data.bytes.to_vec(), vals: values(fields, &x.data), text: x.data.to_string() })), Some(x.data)),
    }
}
/// Reading straight through, once as records and once as regions, nothing else going on.
fn plain(b: &Bytes, cx: &mut Cx) -> Result<Plain, String> {
    cx.call("reading straight through", || {
        let mut r = open(b)?;
        let fields = r.dbf_fields();
        let mut p = Plain { items: vec![], regions: vec![], names: fields.iter().map(|f| f.name.clone()).collect(), bbox: bbox_bits(&r) };
        for _ in 0..20 { let x = of_record(r.next(), &fields).0; if x.is_none() { break; } p.items.push(x); }
        let mut r = open(b)?;
        let mut g = ShapefileGeoIterator::new(&mut r);
        for _ in 0..20 { let x = of_region(g.next(), &fields).0; if x.is_none() { break; } p.regions.push(x); }
        if p.items.len() != p.regions.len() { return Err(format!("{} records but {} regions", p.items.len(), p.regions.len())); }
        Ok(p)
    })?
}

struct Side<'a> { reader: Option<Reader>, want: &'a Plain, pos: usize, fields: Vec<DbfField>, first: Vec<DbfField>, kept: Vec<(DbfRecord, Seen)> }
impl<'a> Side<'a> {
    fn new(b: &Bytes, want: &'a Plain) -> Result<Side<'a>, String> { let r = open(b)?; let f = r.dbf_fields().to_vec(); Ok(Side { reader: Some(r), want, pos: 0, fields: vec![], first: f, kept: vec![] }) }
    fn act(&mut self, a: u64, cx: &mut Cx) -> R {
        let r = self.reader.as_mut().unwrap();
        let first = &self.first;
        let n = self.want.items.len();
        let left = n - self.pos.min(n);
        let hint = r.size_hint();
        if hint.0 > left || hint.1.map_or(false, |h| h < left) { return Err(format!("size_hint says {:?}, but {} items are left", hint, left)); }
        let (got, list, skip) = match a {
            0 => (cx.call("next", || of_record(r.next(), first))?, &self.want.items, 0),
            1 => (cx.call("next region", || of_region(ShapefileGeoIterator::new(r).next(), first))?, &self.want.regions, 0),
            2 => (cx.call("nth(1)", || of_record(r.nth(1), first))?, &self.want.items, 1),
            3 => (cx.call("nth(1) region", || { let mut g = ShapefileGeoIterator::new(r); of_region(g.nth(1), first) })?, &self.want.regions, 1),
            _ => {
                let found = cx.call("looking up", || {
                    let names: Vec<String> = r.dbf_fields().iter().map(|f| f.name.clone()).collect();
                    let fs: Vec<Option<DbfField>> = names.iter().map(|n| r.get_field(n)).collect();
                    (names, fs, bbox_bits(r), r.get_field("no such field").is_some())
                })?;
                if found.0 != self.want.names || found.2 != self.want.bbox || found.3 || found.1.iter().any(|f| f.is_none()) { return Err(format!("after {} items, fields and bounding box are {:?} {:?}, expected {:?} {:?}", self.pos, found.0, found.2, self.want.names, self.want.bbox)); }
                self.fields = found.1.into_iter().flatten().collect();
                return Ok(());
            }
        };
        let at = self.pos + skip;
        let want = list.get(at).cloned().unwrap_or(None);
        if got.0 != want { return Err(format!("item {} is {:?}, but reading straight through it is {:?}", at, got.0, want)); }
        self.pos = (at + 1).min(n);
        if let (Some(Ok(s)), Some(d)) = got { let c = d.clone(); if self.kept.len() % 2 == 0 { self.kept.push((d, s)); } else { drop(d); self.kept.push((c, s)); } }
        Ok(())
    }
    fn recheck(&self, when: &str) -> R {
        for (i, (d, s)) in self.kept.iter().enumerate() {
            for fields in [&self.first, &self.fields] {
                if fields.is_empty() { continue; }
                if d.bytes[..] != s.bytes[..] || values(fields, d) != s.vals || d.to_string() != s.text { return Err(format!("{}: record kept as number {} reads {:?} ({}), before it was {:?} ({})", when, i, values(fields, d), d, s.vals, s.text)); }
            }
        }
        Ok(())
    }
}

fn case(ka: u64, kb: u64, acts: &[u64], cx: &mut Cx) -> R {
    let (fa, fb) = (files(ka), files(kb));
    let (pa, pb) = (plain(&fa, cx)?, plain(&fb, cx)?);
    let mut a = Side::new(&fa, &pa)?;
    let mut b = Side::new(&fb, &pb)?;
    for (k, &x) in acts.iter().enumerate() {
        let (s, y) = if x < 5 { (&mut a, x) } else { (&mut b, x - 5) };
        s.act(y, cx).map_err(|e| format!("{} (step {}): {}", if x < 5 { "first reader" } else { "second reader" }, k + 1, e))?;
        cx.state(&(ka, a.pos, !a.fields.is_empty(), a.kept.len(), kb, b.pos, !b.fields.is_empty(), b.kept.len()));
    }
    a.recheck("at the end")?;
    b.recheck("at the end")?;
    let last = b.reader.take();
    drop(a.reader.take());
    a.recheck("first reader dropped")?;
    b.recheck("first reader dropped")?;
    drop(last);
    a.recheck("both readers dropped")?;
    b.recheck("both readers dropped")?;
    // a field reads what a record's bytes are now (they are public), not what was at that place before
    for side in [&a, &b] {
        for w in side.kept.windows(2) {
            let mut d = w[0].0.clone();
            let fs = if side.fields.is_empty() { &side.first } else { &side.fields };
            cx.call("reading a record again", || values(fs, &d))?;
            d.bytes.copy_from_slice(&w[1].0.bytes);
            let now = cx.call("reading a changed record", || values(fs, &d))?;
            if now != w[1].1.vals { return Err(format!("a record changed to {:?} reads {:?}, expected {:?}", d.bytes, now, w[1].1.vals)); }
        }
    }
    // a field finds its own bytes or none in a record of another file
    if ka != kb { for f in &a.first { for (d, _) in &b.kept { let _ = cx.call("reading a field from a record of another file", || f.read_string(d).is_ok())?; } } }
    // any reader of the same file gives fields that read the same
    let again = open(&fa)?;
    a.fields = again.dbf_fields().to_vec();
    drop(again);
    a.recheck("with the fields of another reader")?;
    cx.validated += acts.len() as u64;
    Ok(())
}

/// The two readers on their own: next, nth, what was counted, copies of their headers.
fn alone(kind: u64, acts: &[u64], cx: &mut Cx) -> R {
    let b = files(kind);
    let want_s = cx.call("reading a .shp", || read_shp(Cursor::new(b.0.clone()), 20))??;
    let want_d = cx.call("reading a .dbf", || read_dbf(Cursor::new(b.1.clone()), encoding::all::UTF_8, 20))??;
    let mut s = ShpReader::new(Cursor::new(b.0.clone())).map_err(|e| e.to_string())?;
    let mut d = DbfReader::new(Cursor::new(b.1.clone()), encoding::all::UTF_8).map_err(|e| e.to_string())?;
    let fields: Vec<DbfField> = d.meta.fields.to_vec();
    let (mut ps, mut pd) = (0, 0);
    for &a in acts {
        let n = (a % 3) as usize;
        if a < 3 {
            let h = s.size_hint();
            let left = want_s.items.len() - ps;
            if h.0 > left || h.1.map_or(false, |x| x < left) { return Err(format!("the .shp reader promises {:?} items, {} are left", h, left)); }
            let got = cx.call("shp nth", || s.nth(n).map(|r| r.map(|x| (x.record_number, ring_bits(&x.rings))).map_err(|e| e.to_string())))?;
            let want = want_s.items.get(ps + n).cloned();
            if got != want { return Err(format!("nth({}) after {} shapes is {:?}, expected {:?}", n, ps, got, want)); }
            ps = (ps + n + 1).min(want_s.items.len());
        } else {
            let h = d.size_hint();
            let left = want_d.items.len() - pd;
            if h.0 > left || h.1.map_or(false, |x| x < left) { return Err(format!("the .dbf reader promises {:?} items, {} are left", h, left)); }
            let got = cx.call("dbf nth", || d.nth(n).map(|r| r.map(|x| (x.bytes.to_vec(), values(&fields, &x))).map_err(|e| e.to_string())))?;
            let want = want_d.items.get(pd + n).cloned();
            if got != want { return Err(format!("nth({}) after {} attribute records is {:?}, expected {:?}", n, pd, got, want)); }
            pd = (pd + n + 1).min(want_d.items.len());
        }
        cx.state(&(kind, ps, pd));
    }
    let rest = cx.call("counting", || (s.count(), d.count()))?;
    if rest != (want_s.items.len() - ps, want_d.items.len() - pd) { return Err(format!("count() gives {:?} after {} and {} items of {} and {}", rest, ps, pd, want_s.items.len(), want_d.items.len())); }
    cx.validated += acts.len() as u64;
    Ok(())
}

fn seq_space(name: &str, kinds: u64, n: u64, len: u32, f: fn(u64, &[u64], &mut Cx) -> R) -> Space {
    let dec = move |i: u64| { let mut d = Dec(i); let k = d.take(kinds); (k, (0..len).map(|_| d.take(n)).collect::<Vec<_>>()) };
    Space::new(format!("{} {} steps", name, len), kinds * pow(n, len), move |i, cx| { let (k, a) = dec(i); f(k, &a, cx) }, move |i| { let (k, a) = dec(i); format!("files {}, actions {:?}", k, a) })
}
fn c25_spaces(th: bool) -> Vec<Space> {
    let two: fn(u64, &[u64], &mut Cx) -> R = |k, a, cx| case(k % KINDS, k / KINDS, a, cx);
    let mut v = vec![seq_space("two readers", KINDS * KINDS, 10, 3, two), seq_space("two readers", 2 * KINDS, 10, 4, two), seq_space("one reader", KINDS, 5, 6, |k, a, cx| case(k, (k + 1) % KINDS, a, cx)), seq_space("single files", KINDS, 6, 5, alone)];
    if th { v.push(seq_space("two readers", KINDS * KINDS, 10, 4, two)); v.push(seq_space("two readers", 4, 10, 6, two)); v.push(seq_space("one reader", KINDS, 5, 8, |k, a, cx| case(k, (k + 1) % KINDS, a, cx))); v.push(seq_space("single files", KINDS, 6, 7, alone)); }
    v
}
pub fn props() -> Vec<Prop> { vec![Prop { id: "C25", level: "model_checking", spaces: c25_spaces }] }
