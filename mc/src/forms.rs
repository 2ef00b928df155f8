//! C21: errors name their cause. C22: printed forms show exactly the content.
use crate::core::*;
use crate::files::*;
use crate::geom::pt;
use crate::Prop;
use std::error::Error;
use std::io::{Cursor, ErrorKind as K, Read};
use std::sync::Arc;
use topogeo::geo::{Edge, Point, Region, Ring};
use topogeo::read::shapefile::dbf::{DbfError, DbfReader};
use topogeo::read::shapefile::shp::{ShpError, ShpPoint, ShpPolygonRing, ShpReader};
use topogeo::read::shapefile::shapefile::ShapefileError;
use topogeo::read::shapefile::{ShapefileGeoIterator, ShapefileReader};

fn utf8() -> encoding::EncodingRef { encoding::all::UTF_8 }

// ---- C21
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum E { Io(K), Parse, ShpIo(K), ShpParse, DbfIo(K), DbfParse, Join }

/// The error's variant; its text, cause and variant must agree.
fn agree(io: Option<&std::io::Error>, parse: Option<&str>, text: String, cause: Option<String>) -> Result<E, String> {
    match (io, parse) {
        (Some(i), _) => {
            if text != i.to_string() { return Err(format!("an I/O error {:?} prints as {:?}", i.to_string(), text)); }
            if cause != Some(i.to_string()) { return Err(format!("the cause of I/O error {:?} is {:?}", i.to_string(), cause)); }
            Ok(E::Io(i.kind()))
        }
        (_, Some(d)) => {
            if d.is_empty() || !text.contains(d) { return Err(format!("a format error {:?} prints as {:?}", d, text)); }
            if cause.is_some() { return Err(format!("a format error has the cause {:?}", cause)); }
            Ok(E::Parse)
        }
        _ => unreachable!(),
    }
}
#[allow(deprecated)]
fn cause(e: &dyn Error) -> Option<String> { e.cause().map(|c| c.to_string()) }
fn shp_err(e: &ShpError) -> Result<E, String> { match e { ShpError::IOError(i) => agree(Some(i), None, e.to_string(), cause(e)), ShpError::ParseError(d) => agree(None, Some(d), e.to_string(), cause(e)) } }
fn dbf_err(e: &DbfError) -> Result<E, String> { match e { DbfError::IOError(i) => agree(Some(i), None, e.to_string(), cause(e)), DbfError::ParseError(d) => agree(None, Some(d), e.to_string(), cause(e)) } }
fn pair_err(e: &ShapefileError) -> Result<E, String> {
    match e {
        ShapefileError::ShpError(x) => { let k = shp_err(x)?; if e.to_string() != x.to_string() || cause(e) != Some(x.to_string()) { return Err(format!("{:?} prints as {:?} with cause {:?}", x, e.to_string(), cause(e))); } Ok(match k { E::Io(k) => E::ShpIo(k), _ => E::ShpParse }) }
        ShapefileError::DbfError(x) => { let k = dbf_err(x)?; if e.to_string() != x.to_string() || cause(e) != Some(x.to_string()) { return Err(format!("{:?} prints as {:?} with cause {:?}", x, e.to_string(), cause(e))); } Ok(match k { E::Io(k) => E::DbfIo(k), _ => E::DbfParse }) }
        ShapefileError::JoinError(d) => { if d.is_empty() || !e.to_string().contains(d.as_str()) || cause(e).is_some() { return Err(format!("a join error {:?} prints as {:?}", d, e.to_string())); } Ok(E::Join) }
    }
}
/// None = a record; the errors of the whole read, opening first.
type Seen = Result<Vec<Option<E>>, E>;
fn see_shp<T: Read>(s: T) -> Result<Seen, String> {
    Ok(match ShpReader::new(s) { Err(e) => Err(shp_err(&e)?), Ok(r) => { let mut v = vec![]; for x in r.take(40) { v.push(match x { Ok(_) => None, Err(e) => Some(shp_err(&e)?) }); } Ok(v) } })
}
fn see_dbf<T: Read>(s: T) -> Result<Seen, String> {
    Ok(match DbfReader::new(s, utf8()) { Err(e) => Err(dbf_err(&e)?), Ok(r) => { let mut v = vec![]; for x in r.take(40) { v.push(match x { Ok(_) => None, Err(e) => Some(dbf_err(&e)?) }); } Ok(v) } })
}
fn see_pair<T: Read, U: Read>(s: T, d: U, regions: bool) -> Result<Seen, String> {
    Ok(match ShapefileReader::new(s, d, utf8()) {
        Err(e) => Err(pair_err(&e)?),
        Ok(mut r) => {
            let mut v = vec![];
            if regions { for x in ShapefileGeoIterator::new(&mut r).take(40) { v.push(match x { Ok(_) => None, Err(e) => Some(pair_err(&e)?) }); } }
            else { for x in r.take(40) { v.push(match x { Ok(_) => None, Err(e) => Some(pair_err(&e)?) }); } }
            Ok(v)
        }
    })
}

fn shape(i: usize) -> Vec<Vec<F>> { let b = i as f64 * 10.; let sq = |o: f64| vec![(b + o, o), (b + o, 5. + o), (b + 5. + o, 5. + o), (b + 5. + o, o), (b + o, o)]; if i % 2 == 0 { vec![sq(0.)] } else { vec![sq(0.), sq(0.5)] } }
fn fields() -> Vec<Field> { vec![field("name", 'C', 4), field("num", 'N', 3)] }
fn row(i: usize) -> Vec<Vec<u8>> { vec![padr(format!("n{}", i).as_bytes(), 4), padl(format!("{}", i).as_bytes(), 3)] }
fn shp_of(n: usize) -> Vec<u8> { shp_file(&(0..n).map(shape).collect::<Vec<_>>(), Some([0., 0., 100., 100.])) }
fn dbf_of(n: usize) -> Vec<u8> { dbf_file(&fields(), &(0..n).map(row).collect::<Vec<_>>(), true) }
fn shp_ends(d: &[u8]) -> Vec<usize> { let mut e = vec![100]; while *e.last().unwrap() < d.len() { let p = *e.last().unwrap(); e.push(p + 8 + 2 * u32::from_be_bytes([d[p + 4], d[p + 5], d[p + 6], d[p + 7]]) as usize); } e }
fn dbf_ends(n: usize) -> Vec<usize> { (0..=n).map(|k| 97 + 8 * k).collect() }
const KINDS: [K; 8] = [K::Other, K::TimedOut, K::WouldBlock, K::BrokenPipe, K::PermissionDenied, K::InvalidData, K::UnexpectedEof, K::ConnectionReset];

/// A single file whose source fails at `f` with `kind` (or ends there).
fn lone(seen: Seen, f: usize, ends: &[usize], kind: K) -> R {
    if f < ends[0] { return if seen == Err(E::Io(kind)) { Ok(()) } else { Err(format!("the source failed in the header with {:?}, but opening gave {:?}", kind, seen)) }; }
    let v = seen.map_err(|e| format!("opening failed with {:?} although the header was delivered", e))?;
    let c = ends[1..].iter().filter(|e| **e <= f).count();
    if c == ends.len() - 1 { return if v.iter().all(|x| x.is_none()) && v.len() == c { Ok(()) } else { Err(format!("everything was delivered, but the items are {:?}", v)) }; }
    if v.len() <= c || v[..c].iter().any(|x| x.is_some()) || v[c] != Some(E::Io(kind)) { return Err(format!("the source failed with {:?} in record {}, but the items are {:?}", kind, c, v)); }
    Ok(())
}

fn c21_spaces(th: bool) -> Vec<Space> {
    let n = if th { 9 } else { 6 };
    let (shp, dbf) = (Arc::new(shp_of(n)), Arc::new(dbf_of(n)));
    let (ls, ld) = (shp.len() as u64, dbf.len() as u64);
    let chunks: &'static [usize] = if th { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 31, 32, 33, 44, 64, 65, 100, 101, 127] } else { &[0, 1, 2, 3, 5, 7, 8, 16, 33, 64, 100] };
    let nc = chunks.len() as u64;
    let mut v = vec![];
    let src = move |d: &[u8], i: u64, l: u64| { let mut e = Dec(i); let mut s = Source::new(d); s.fail_at = Some(e.take(l + 1) as usize); s.kind = KINDS[e.take(8) as usize]; s.chunk = *e.pick(chunks); s };
    let a = shp.clone();
    v.push(Space::new("shp-failures", (ls + 1) * 8 * nc, move |i, cx| { let s = src(&a, i, ls); let (f, k) = (s.fail_at.unwrap(), s.kind); let o = cx.call("reading", || see_shp(s))??; cx.state(&o); cx.validated += 1; lone(o, f, &shp_ends(&a), k) }, |i| format!("failing .shp source {}", i)));
    let a = dbf.clone();
    v.push(Space::new("dbf-failures", (ld + 1) * 8 * nc, move |i, cx| { let s = src(&a, i, ld); let (f, k) = (s.fail_at.unwrap(), s.kind); let o = cx.call("reading", || see_dbf(s))??; cx.state(&o); cx.validated += 1; lone(o, f, &dbf_ends(n), k) }, |i| format!("failing .dbf source {}", i)));
    let (a, b) = (shp.clone(), dbf.clone());
    v.push(Space::new("ends-early", (ls + ld + 2) * nc, move |i, cx| {
        let mut e = Dec(i);
        let (p, c) = (e.take(ls + ld + 2) as usize, *e.pick(chunks));
        let shp = p <= a.len();
        let f = if shp { p } else { p - a.len() - 1 };
        let mut s = Source::new(if shp { &a[..f] } else { &b[..f] });
        s.chunk = c;
        let o = cx.call("reading", || if shp { see_shp(s) } else { see_dbf(s) })??;
        cx.state(&o); cx.validated += 1;
        if shp { lone(o, f, &shp_ends(&a), K::UnexpectedEof) } else { lone(o, f, &dbf_ends(n), K::UnexpectedEof) }
    }, |i| format!("data ending early {}", i)));
    // everything is delivered: whatever is wrong is the format
    let a = shp.clone();
    v.push(Space::new("shp-header-bytes", 100 * 256, move |i, cx| {
        let (p, x) = ((i % 100) as usize, (i / 100) as u8);
        if p >= 24 && p < 28 { return Ok(()); } // the length: less may be read than there is, or more wanted
        let mut d = a.to_vec(); d[p] = x;
        let o = cx.call("reading", || see_shp(Cursor::new(d)))??;
        cx.state(&o); cx.validated += 1;
        let fatal = x != a[p] && (p < 4 || (p >= 28 && p < 36));
        if fatal { if o != Err(E::Parse) { return Err(format!("byte {} is {}: {:?}, expected a format error on opening", p, x, o)); } }
        else if o != Ok(vec![None; n]) { return Err(format!("byte {} is {}: {:?}, expected {} records", p, x, o, n)); }
        Ok(())
    }, |i| format!(".shp header byte {} = {}", i % 100, i / 100)));
    let a = shp.clone();
    v.push(Space::new("shp-record-bytes", (ls - 100) * 256, move |i, cx| {
        let (p, x) = (100 + (i % (ls - 100)) as usize, (i / (ls - 100)) as u8);
        let ends = shp_ends(&a);
        let k = ends.iter().filter(|e| **e <= p).count() - 1;
        let off = p - ends[k];
        if off >= 4 && off < 8 { return Ok(()); } // the record length
        let mut d = a.to_vec(); d[p] = x;
        let o = cx.call("reading", || see_shp(Cursor::new(d)))??;
        cx.state(&o); cx.validated += 1;
        let w = o.map_err(|e| format!("opening failed: {:?}", e))?;
        for (j, y) in w.iter().enumerate() { if !(*y == None || (j == k && *y == Some(E::Parse))) { return Err(format!("byte {} of record {} is {}: {:?}", off, k, x, w)); } }
        if w.len() != n { return Err(format!("{} items for {} records", w.len(), n)); }
        Ok(())
    }, move |i| format!(".shp record byte {} = {}", 100 + i % (ls - 100), i / (ls - 100))));
    let a = dbf.clone();
    v.push(Space::new("dbf-header-bytes", 12 * 256, move |i, cx| {
        let (p, x) = ((i % 12) as usize, (i / 12) as u8);
        let mut d = a.to_vec(); d[p] = x;
        let o = cx.call("reading", || see_dbf(Cursor::new(d.clone())))??;
        cx.state(&o); cx.validated += 1;
        let hb = u16::from_le_bytes([d[8], d[9]]) as usize;
        let (nr, rl) = (u32::from_le_bytes([d[4], d[5], d[6], d[7]]), u16::from_le_bytes([d[10], d[11]]));
        if d[2] > 12 || d[3] > 31 || hb < 32 || (nr > 0 && rl == 0) { if o != Err(E::Parse) { return Err(format!("byte {} is {}: {:?}, expected a format error on opening", p, x, o)); } }
        else if p < 4 { if o != Ok(vec![None; n]) { return Err(format!("byte {} is {}: {:?}, expected {} records", p, x, o, n)); } }
        else if p == 8 || p == 9 { if hb > d.len() && o != Err(E::Io(K::UnexpectedEof)) { return Err(format!("a header of {} bytes in a file of {}: {:?}", hb, d.len(), o)); } }
        else if p < 8 && nr as usize > n { match o { Ok(w) if w.len() > n && w[..n].iter().all(|x| x.is_none()) && w[w.len() - 1] == Some(E::Io(K::UnexpectedEof)) => {} o => return Err(format!("{} records claimed, {} present: {:?}", nr, n, o)) } }
        Ok(())
    }, |i| format!(".dbf header byte {} = {}", i % 12, i / 12)));
    v.push(Space::new("dbf-names", 11 * 256, |i, cx| {
        let (p, x) = ((i % 11) as usize, (i / 11) as u8);
        let mut name = b"abcdefghijk".to_vec(); name[p] = x;
        let t = &name[..name.iter().position(|b| *b == 0).unwrap_or(11)];
        if p == 0 && x == 0x0d { return Ok(()); } // ends the descriptors
        let ok = std::str::from_utf8(t).is_ok();
        let d = dbf_file(&[Field { name: name.clone(), ty: b'C', len: 4 }], &[vec![b"abcd".to_vec()]], true);
        let o = cx.call("reading", || see_dbf(Cursor::new(d)))??;
        cx.state(&(&o, ok)); cx.validated += 1;
        if o != if ok { Ok(vec![None]) } else { Err(E::Parse) } { return Err(format!("a field named {:?}: {:?}", name, o)); }
        Ok(())
    }, |i| format!("field name byte {} = {}", i % 11, i / 11)));
    v.push(Space::new("dbf-values", 65536 * 3, |i, cx| {
        let mut e = Dec(i);
        let (x, y, ty) = (e.take(256) as u8, e.take(256) as u8, [b'C', b'N', b'L'][e.0 as usize]);
        let d = dbf_file(&[Field { name: b"f".to_vec(), ty, len: 2 }], &[vec![vec![x, y]]], true);
        let r = cx.call("reading a value", || -> Result<Option<E>, String> { let mut r = DbfReader::new(Cursor::new(d), utf8()).map_err(|e| e.to_string())?; let f = r.get_field("f").ok_or("no field")?; let rec = r.next().ok_or("no record")?.map_err(|e| e.to_string())?; Ok(match f.read_string(&rec) { Ok(_) => None, Err(e) => Some(dbf_err(&e)?) }) })??;
        cx.state(&(r, ty)); cx.validated += 1;
        match r { None | Some(E::Parse) => Ok(()), x => Err(format!("an unreadable value gave {:?}", x)) }
    }, |i| format!("value bytes {} {} in field type {}", i % 256, i / 256 % 256, i / 65536)));
    // pairs: the file at fault is named
    let kinds2: [(K, K); 4] = [(K::Other, K::TimedOut), (K::TimedOut, K::Other), (K::UnexpectedEof, K::BrokenPipe), (K::WouldBlock, K::UnexpectedEof)];
    let m = 3usize;
    let (s3, d3) = (Arc::new(shp_of(m)), Arc::new(dbf_of(m)));
    let (l3, k3) = (s3.len() as u64, d3.len() as u64);
    v.push(Space::new("pair-failures", (l3 + 2) * (k3 + 2) * 4 * 2, move |i, cx| {
        let mut e = Dec(i);
        let (x, y, (ka, kb), reg) = (e.take(l3 + 2), e.take(k3 + 2), kinds2[e.take(4) as usize], e.take(2) == 1);
        let (mut s, mut d) = (Source::new(&s3), Source::new(&d3));
        let (fs, fd) = (if x <= l3 { s.fail_at = Some(x as usize); x as usize } else { usize::MAX }, if y <= k3 { d.fail_at = Some(y as usize); y as usize } else { usize::MAX });
        s.kind = ka; d.kind = kb;
        let o = cx.call("reading a pair", || see_pair(s, d, reg))??;
        cx.state(&o); cx.validated += 1;
        let (es, ed) = (shp_ends(&s3), dbf_ends(m));
        let fault = |a: bool, b: bool, got: Option<E>| (a && got == Some(E::ShpIo(ka))) || (b && got == Some(E::DbfIo(kb)));
        if fs < es[0] || fd < ed[0] { return match o { Err(g) if fault(fs < es[0], fd < ed[0], Some(g)) => Ok(()), o => Err(format!("failing headers (.shp at {}, .dbf at {}): {:?}", fs, fd, o)) }; }
        let c = |f: usize, e: &[usize]| e[1..].iter().filter(|x| **x <= f).count();
        let (cs, cd) = (c(fs, &es), c(fd, &ed));
        let w = o.map_err(|e| format!("opening failed with {:?} although both headers were delivered", e))?;
        let k = cs.min(cd);
        if w.len() < k || w[..k].iter().any(|x| x.is_some()) { return Err(format!("{} pairs were delivered, but the items are {:?}", k, w)); }
        if k == m { return if w.len() == m { Ok(()) } else { Err(format!("items {:?} for {} pairs", w, m)) }; }
        if w.len() <= k || !fault(cs == k, cd == k, w[k]) { return Err(format!("sources failed at {} ({:?}) and {} ({:?}): {:?}", fs, ka, fd, kb, w)); }
        Ok(())
    }, |i| format!("failing pair {}", i)));
    v.push(Space::new("pair-counts", 6 * 6 * 64 * 2, |i, cx| {
        let mut e = Dec(i);
        let (ns, nd, bad, reg) = (e.take(6) as usize, e.take(6) as usize, e.take(64), e.take(2) == 1);
        if bad >> ns > 0 { return Ok(()); }
        let recs: Vec<(u32, Vec<u8>)> = (0..ns).map(|k| { let mut c = polygon(&shape(k)); if bad >> k & 1 == 1 { match k % 3 { 0 => c[0] = 3, 1 => c[40] = 99, _ => c[44] = 77 } } (k as u32 + 1, c) }).collect();
        let s = shp_raw(&recs, [0., 0., 100., 100.]);
        let o = cx.call("reading a pair", || see_pair(Cursor::new(s), Cursor::new(dbf_of(nd)), reg))??;
        cx.state(&o); cx.validated += 1;
        let w = o.map_err(|e| format!("opening failed with {:?}", e))?;
        if w.len() != ns.max(nd) { return Err(format!("{} shapes, {} attribute records: {:?}", ns, nd, w)); }
        for (k, x) in w.iter().enumerate() {
            let is_bad = k < ns && bad >> k & 1 == 1;
            let ok = match x { None => k < ns && k < nd && !is_bad, Some(E::ShpParse) => is_bad, Some(E::Join) => k >= ns || k >= nd, _ => false };
            if !ok { return Err(format!("{} shapes (bad: {:b}), {} attribute records: {:?}", ns, bad, nd, w)); }
        }
        Ok(())
    }, |i| format!("pair of {} shapes and {} attribute records, bad {:b}", i % 6, i / 6 % 6, i / 36 % 64)));
    v.push(Space::new("pair-opening", 5 * 5 * 2, |i, cx| {
        // by path: good, missing, bad header, short header, a directory
        let mut e = Dec(i);
        let (a, b, how) = (e.take(5), e.take(5), e.take(2));
        let dir = std::env::temp_dir().join(format!("mc-c21-{}-{}", std::process::id(), i));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let (sp, dp) = (dir.join("x.shp"), dir.join("x.dbf"));
        let put = |p: &std::path::Path, st: u64, mut d: Vec<u8>, bad: (usize, u8)| -> std::io::Result<()> { match st { 0 => std::fs::write(p, d), 1 => Ok(()), 2 => { d[bad.0] = bad.1; std::fs::write(p, d) } 3 => std::fs::write(p, &d[..20]), _ => std::fs::create_dir(p) } };
        let w = put(&sp, a, shp_of(2), (0, 9)).and_then(|_| put(&dp, b, dbf_of(2), (2, 13)));
        let r = cx.call("opening by path", || -> Result<(Result<(), E>, Result<(), E>, Result<(), E>), String> {
            use topogeo::read::shapefile as s;
            let one = match s::shp::open(&sp) { Ok(_) => Ok(()), Err(e) => Err(shp_err(&e)?) };
            let two = match s::dbf::open(&dp, utf8()) { Ok(_) => Ok(()), Err(e) => Err(dbf_err(&e)?) };
            let both = match if how == 0 { s::open(&sp, utf8()) } else { s::open_ascii(&sp) } { Ok(_) => Ok(()), Err(e) => Err(pair_err(&e)?) };
            Ok((one, two, both))
        });
        for p in [&sp, &dp] { if p.is_dir() { let _ = std::fs::remove_dir(p); } else { let _ = std::fs::remove_file(p); } }
        let _ = std::fs::remove_dir(&dir);
        w.map_err(|e| e.to_string())?;
        let (one, two, both) = r??;
        cx.state(&(one, two, both)); cx.validated += 1;
        let fit = |st: u64, r: &Result<(), E>| match st { 0 => *r == Ok(()), 1 => *r == Err(E::Io(K::NotFound)), 2 => *r == Err(E::Parse), 3 => *r == Err(E::Io(K::UnexpectedEof)), _ => matches!(r, Err(E::Io(_))) };
        let down = match both { Ok(()) => (Some(Ok(())), Some(Ok(()))), Err(E::ShpIo(k)) => (Some(Err(E::Io(k))), None), Err(E::ShpParse) => (Some(Err(E::Parse)), None), Err(E::DbfIo(k)) => (None, Some(Err(E::Io(k)))), Err(E::DbfParse) => (None, Some(Err(E::Parse))), _ => return Err("opening gave a join error".into()) };
        let fits = down.0.map_or(true, |r| fit(a, &r)) && down.1.map_or(true, |r| fit(b, &r));
        if !fit(a, &one) || !fit(b, &two) || !fits { return Err(format!("file states {} and {}: {:?} {:?} {:?}", a, b, one, two, both)); }
        Ok(())
    }, |i| format!("opening case {}", i)));
    v
}

// ---- C22
const COORDS: &[i64] = &[0, 1, 9, 10, 1234567890, 2147483648, 4294967295];
const FLOATS: &[f64] = &[0., 1., -1., 0.1, -2.5, 1e-7, 123456789.125, 7631181.2140951585, 1e21, -1.7976931348623157e308, 5e-324];

fn want_point(p: (i64, i64)) -> String { format!("({},{})", p.0, p.1) }
fn list(v: &[(i64, i64)]) -> String { v.iter().map(|p| want_point(*p)).collect::<Vec<_>>().join(",") }
fn pts(v: &[(i64, i64)]) -> Box<[Point]> { v.iter().map(|p| pt(*p)).collect::<Vec<_>>().into_boxed_slice() }
fn same(what: &str, got: Result<String, String>, want: String, cx: &mut Cx) -> R {
    let got = got?;
    cx.state(&got); cx.validated += 1;
    if got != want { return Err(format!("{} prints as {:?}, expected {:?}", what, got, want)); }
    Ok(())
}
/// A ring: structure 0 = n points; k > 0 = edges cut after every k segments.
fn ring_of(n: u64, cut: u64, seed: u64) -> (Ring, String) {
    let p: Vec<(i64, i64)> = (0..n).map(|i| (COORDS[((i + seed) % 7) as usize], COORDS[((i * 3 + seed / 7) % 7) as usize])).collect();
    if cut == 0 { return (Ring::Points(pts(&p)), format!("[{}]", list(&p))); }
    let es: Vec<Vec<(i64, i64)>> = (0..p.len()).step_by(cut as usize).map(|a| p[a..(a + cut as usize + 1).min(p.len())].to_vec()).collect();
    let t = es.iter().map(|e| format!("Edge({})", list(e))).collect::<Vec<_>>().join(",");
    (Ring::Edges(es.iter().map(|e| Edge(pts(e))).collect::<Vec<_>>().into_boxed_slice()), format!("[{}]", t))
}
/// A clone has the same text (it is what a caller prints after handing the original on).
fn c22_spaces(th: bool) -> Vec<Space> {
    let nc = COORDS.len() as u64;
    let mut v = vec![
        Space::new("points", nc * nc, move |i, cx| { let p = (COORDS[(i % nc) as usize], COORDS[(i / nc) as usize]); let g = cx.call("printing", || pt(p).to_string()); same("a point", g, want_point(p), cx) }, |i| format!("point {}", i)),
        Space::new("edges", (0..=4).map(|k| pow(nc * nc, k.min(if th { 4 } else { 3 }))).sum::<u64>(), move |mut i, cx| {
            let mut k = 0; while i >= pow(nc * nc, (k as u32).min(if th { 4 } else { 3 })) { i -= pow(nc * nc, (k as u32).min(if th { 4 } else { 3 })); k += 1; }
            let mut d = Dec(i);
            let p: Vec<(i64, i64)> = (0..k).map(|j| if j < 3 { (*d.pick(COORDS), *d.pick(COORDS)) } else { (j, j + 1) }).collect();
            let g = cx.call("printing", || Edge(pts(&p)).to_string());
            same("an edge", g, format!("Edge({})", list(&p)), cx)
        }, |i| format!("edge {}", i)),
        Space::new("rings", 40 * 8 * 49, |i, cx| { let mut d = Dec(i); let (n, c, s) = (d.take(40), d.take(8), d.0); let (r, w) = ring_of(n, c, s); let g = cx.call("printing", || r.clone().to_string()); same("a ring", g, w, cx) }, |i| format!("ring of {} points cut every {}", i % 40, i / 40 % 8)),
        Space::new("regions", pow(7, 6), |i, cx| {
            // up to three outer and three inner rings of six kinds
            let mut d = Dec(i);
            let mut mk = |s: u64| { let mut rs = vec![]; let mut ts = vec![]; for k in 0..3 { let x = d.take(7); if x == 0 { continue; } let (r, t) = ring_of(3 + x % 3, (x - 1) / 3, s + k); rs.push(r); ts.push(t); } (rs, ts) };
            let (o, ot) = mk(1);
            let (n, nt) = mk(20);
            let g = cx.call("printing", || Region { data: 7u8, outer_rings: o.into_boxed_slice(), inner_rings: n.into_boxed_slice() }.to_string());
            same("a region", g, format!("Region([data], outer:[{}], inner:[{}])", ot.join(", "), nt.join(", ")), cx)
        }, |i| format!("region {}", i)),
    ];
    // every pattern of equal points: sequences of up to six points out of three, in every container
    const ALPHA: &[(i64, i64)] = &[(0, 0), (0, 7), (4294967295, 0)];
    let deep_seq: u64 = if th { 9 } else { 8 };
    v.push(Space::new("repeated-points", (0..=deep_seq as u32).map(|k| pow(3, k)).sum::<u64>() << deep_seq, move |i, cx| {
        let (cuts, mut i) = (i % (1 << deep_seq), i >> deep_seq);
        let mut k = 0; while i >= pow(3, k) { i -= pow(3, k); k += 1; }
        let mut d = Dec(i);
        let p: Vec<(i64, i64)> = (0..k).map(|_| *d.pick(ALPHA)).collect();
        let g = cx.call("printing", || Edge(pts(&p)).to_string());
        same("an edge", g, format!("Edge({})", list(&p)), cx)?;
        let g = cx.call("printing", || Ring::Points(pts(&p)).to_string());
        same("a ring", g, format!("[{}]", list(&p)), cx)?;
        let g = cx.call("printing", || ShpPolygonRing(p.iter().map(|p| ShpPoint(p.0 as f64, p.1 as f64)).collect::<Vec<_>>().into_boxed_slice()).to_string());
        same("a .shp ring", g, format!("[{}]", list(&p)), cx)?;
        // cut at the chosen joints: bit j set = a new edge starts at point j; without sharing the joint (as given)
        let mut es: Vec<Vec<(i64, i64)>> = vec![];
        for (j, q) in p.iter().enumerate() { if j == 0 || cuts >> j & 1 == 1 { es.push(vec![]); } es.last_mut().unwrap().push(*q); }
        let t = es.iter().map(|e| format!("Edge({})", list(e))).collect::<Vec<_>>().join(",");
        let r = Ring::Edges(es.iter().map(|e| Edge(pts(e))).collect::<Vec<_>>().into_boxed_slice());
        let g = cx.call("printing", || r.to_string());
        same("a ring of edges", g, format!("[{}]", t), cx)?;
        // the edges as a region's rings: also equal ones
        let rings: Vec<Ring> = es.iter().map(|e| Ring::Points(pts(e))).collect();
        let t = es.iter().map(|e| format!("[{}]", list(e))).collect::<Vec<_>>().join(", ");
        let g = cx.call("printing", || Region { data: (), outer_rings: rings.clone().into_boxed_slice(), inner_rings: rings.clone().into_boxed_slice() }.to_string());
        same("a region", g, format!("Region([data], outer:[{}], inner:[{}])", t, t), cx)
    }, |i| format!("sequence {}", i)));
    let nf = FLOATS.len() as u64;
    v.push(Space::new("shp-points", nf * nf, move |i, cx| {
        let p = (FLOATS[(i % nf) as usize], FLOATS[(i / nf) as usize]);
        let g = cx.call("printing", || ShpPoint(p.0, p.1).to_string())?;
        // the text gives back the very same numbers
        let back: Vec<f64> = g.trim_start_matches('(').trim_end_matches(')').split(',').filter_map(|x| x.parse().ok()).collect();
        if back.len() != 2 || back[0].to_bits() != p.0.to_bits() || back[1].to_bits() != p.1.to_bits() { return Err(format!("{:?} prints as {:?}", p, g)); }
        same("a .shp point", Ok(g), format!("({},{})", p.0, p.1), cx)
    }, |i| format!(".shp point {}", i)));
    v.push(Space::new("shp-rings", 12 * nf * nf, move |i, cx| {
        let mut d = Dec(i);
        let (n, a, b) = (d.take(12), d.take(nf), d.take(nf));
        let p: Vec<F> = (0..n).map(|k| (FLOATS[((k + a) % nf) as usize], FLOATS[((k * 5 + b) % nf) as usize])).collect();
        let g = cx.call("printing", || ShpPolygonRing(p.iter().map(|p| ShpPoint(p.0, p.1)).collect::<Vec<_>>().into_boxed_slice()).to_string());
        same("a .shp ring", g, format!("[{}]", p.iter().map(|p| format!("({},{})", p.0, p.1)).collect::<Vec<_>>().join(",")), cx)
    }, |i| format!(".shp ring {}", i)));
    // attribute records and whole records, read from files
    const VALS: &[(char, &[u8], Option<&str>)] = &[('C', b"ab  ", Some("ab")), ('C', b"    ", Some("")), ('C', b" x;y", Some(" x;y")), ('C', "{\u{e9}}".as_bytes(), Some("{\u{e9}}")), ('N', b"  -7", Some("-7")), ('N', b"0.50", Some("0.50")), ('+', &[1, 1, 0, 0], Some("257")), ('C', b"\xff\xff  ", None), ('N', b"  x ", None), ('D', b"2017", None)];
    let nv = VALS.len() as u64;
    let deep = if th { 6 } else { 5 };
    v.push(Space::new("records", (0..=deep).map(|k| pow(nv, k)).sum::<u64>() * 6, move |i, cx| {
        let (rings, twin, mut i) = (i % 3, i / 3 % 2, i / 6);
        let mut k = 0; while i >= pow(nv, k) { i -= pow(nv, k); k += 1; }
        let mut d = Dec(i);
        let vals: Vec<&(char, &[u8], Option<&str>)> = (0..k).map(|_| &VALS[d.take(nv) as usize]).collect();
        let names = if twin == 0 { ["a", "name", "x:y", "n4", "last"] } else { ["a", "a", "", "a", ""] };
        let f: Vec<Field> = vals.iter().enumerate().map(|(j, x)| field(names[j], x.0, 4)).collect();
        let dbf = dbf_file(&f, &[vals.iter().map(|x| x.1.to_vec()).collect()], true);
        let sh: Vec<Vec<F>> = (0..=rings).map(|r| if twin == 1 { 0 } else { r }).map(|r| (0..4 + r).map(|j| (FLOATS[(r + j % (3 + r)) as usize], j as f64 % (3 + r) as f64)).collect()).collect();
        let shp = shp_file(&[sh.clone()], Some([0., 0., 1., 1.]));
        let (a, b) = cx.call("printing records", || -> Result<(String, String), String> {
            let mut r = ShapefileReader::new(Cursor::new(shp), Cursor::new(dbf), utf8()).map_err(|e| e.to_string())?;
            let x = r.next().ok_or("no record")?.map_err(|e| e.to_string())?;
            Ok((x.data.clone().to_string(), x.to_string()))
        })??;
        let rt = sh.iter().map(|r| format!("[{}]", r.iter().map(|p| format!("({},{})", p.0, p.1)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join("; ");
        if b != format!("ShapefileRecord({}; rings: {})", a, rt) { return Err(format!("the record prints as {:?}", b)); }
        if vals.iter().all(|x| x.2.is_some()) { let w = format!("{{{}}}", vals.iter().enumerate().map(|(j, x)| format!("{}:{}", names[j], x.2.unwrap())).collect::<Vec<_>>().join("; ")); cx.note("all values readable"); same("an attribute record", Ok(a), w, cx) }
        else { cx.note("unreadable value"); cx.state(&a); cx.validated += 1; if a.contains("Invalid DBF record") { Ok(()) } else { Err(format!("a record with an unreadable value prints as {:?}", a)) } }
    }, |i| format!("record {}", i)));
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C21", level: "fault_enumeration", spaces: c21_spaces },
        Prop { id: "C22", level: "model_checking", spaces: c22_spaces },
    ]
}
