//! C13 - C18: the shapefile readers.
use crate::alloc::metered;
use crate::core::*;
use crate::files::*;
use crate::Prop;
use std::io::Cursor;
use topogeo::geo::Ring;
use topogeo::read::shapefile::dbf::DbfReader;
use topogeo::read::shapefile::{ShapefileGeoIterator, ShapefileReader};

fn utf8() -> encoding::EncodingRef { encoding::all::UTF_8 }

/// A closed ring of n points with values that identify record, ring and position.
fn ring(tag: u64, n: usize, special: u64) -> Vec<F> {
    let sp = [0.0, -0.0, f64::MIN_POSITIVE / 4.0, 1.7976931348623157e308, -180.0, 0.1, 4294967296.5, -1e-300];
    let mut v: Vec<F> = (0..n - 1).map(|i| ((tag * 100 + i as u64) as f64 + 0.25, -((tag * 100 + i as u64) as f64) - 0.5)).collect();
    if special > 0 { let k = special as usize % v.len(); v[k] = (sp[special as usize % 8], sp[(special as usize / 8 + 3) % 8]); }
    v.push(v[0]);
    v
}
/// Zeros, denormals, extremes, infinities, NaNs with payloads, and patterns whose bytes are all different.
const SPECIAL: &[u64] = &[0, 1 << 63, 1, 0x000f_ffff_ffff_ffff, 0x7fef_ffff_ffff_ffff, 0xffef_ffff_ffff_ffff, 0x0102_0304_0506_0708, 0xf8e7_d6c5_b4a3_9281, 0x41f0_0000_0000_0000,
    0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0001, 0xfff8_0000_dead_beef];
const STRUCT: &[&[usize]] = &[&[4], &[5], &[4, 4], &[4, 5], &[6, 4], &[4, 4, 4], &[9], &[4, 7, 5]];
fn rec(structure: &[usize], tag: u64, special: u64) -> Vec<Vec<F>> { structure.iter().enumerate().map(|(k, &n)| ring(tag * 10 + k as u64, n, if k as u64 == special % 3 { special } else { 0 })).collect() }

fn expect_items(o: &ShpOut, want: &[Result<(u32, Bits), ()>], what: &str) -> R {
    for (i, w) in want.iter().enumerate() {
        match (o.items.get(i), w) {
            (Some(Ok(a)), Ok(b)) if a == b => {}
            (Some(Err(_)), Err(())) => {}
            (g, w) => return Err(format!("{}: item {} is {:?}, expected {:?}", what, i, g, w)),
        }
    }
    if o.items.len() != want.len() { return Err(format!("{}: {} items, expected {}", what, o.items.len(), want.len())); }
    if !o.ended { return Err(format!("{}: the iterator did not end after {} items", what, want.len())); }
    Ok(())
}

fn shp_good(recs: &[Vec<Vec<F>>], nums: &[u32], bbox: [f64; 4], cx: &mut Cx) -> R {
    let file = shp_raw(&recs.iter().zip(nums).map(|(r, &n)| (n, polygon(r))).collect::<Vec<_>>(), bbox);
    let n = file.len();
    let o = cx.call("reading a good .shp", || read_shp(Cursor::new(file), recs.len() + 5))?.map_err(|e| format!("a good file was rejected: {}", e))?;
    if o.n_bytes != n { return Err(format!("file length {} reported as {}", n, o.n_bytes)); }
    if o.bbox != bbox.map(|x| x.to_bits()) { return Err(format!("bounding box {:?} reported as {:?}", bbox, o.bbox.map(f64::from_bits))); }
    let want: Vec<_> = recs.iter().zip(nums).map(|(r, &k)| Ok((k, bits(r)))).collect();
    expect_items(&o, &want, "good file")?;
    cx.state(&o);
    cx.validated += 1;
    Ok(())
}

// What the content of a record means.
enum Meaning { Rings(Bits), Error, Either(Bits) }
fn meaning(c: &[u8]) -> Meaning {
    let u = |i: usize| u32::from_le_bytes([c[i], c[i + 1], c[i + 2], c[i + 3]]) as usize;
    if c.len() < 44 || u(0) != 5 { return Meaning::Error; }
    let (np, n) = (u(36), u(40));
    if np == 0 || (44 + 4 * np as u64 + 16 * n as u64) != c.len() as u64 { return Meaning::Error; }
    let mut starts: Vec<usize> = (0..np).map(|i| u(44 + 4 * i)).collect();
    starts.push(n);
    if starts.windows(2).any(|w| w[0] >= w[1]) { return Meaning::Error; }
    let f = |i: usize| { let mut b = [0u8; 8]; b.copy_from_slice(&c[i..i + 8]); u64::from_le_bytes(b) };
    let at = 44 + 4 * np;
    let rings: Bits = starts.windows(2).map(|w| (w[0]..w[1]).map(|k| (f(at + 16 * k), f(at + 16 * k + 8))).collect()).collect();
    // fewer than four points are no ring, and points before the first part belong to none: unspecified
    if starts[0] != 0 || starts.windows(2).any(|w| w[1] - w[0] < 4) { return Meaning::Either(rings); }
    Meaning::Rings(rings)
}
fn check_contents(contents: &[Vec<u8>], cx: &mut Cx) -> R {
    let file = shp_raw(&contents.iter().enumerate().map(|(i, c)| (i as u32 + 1, c.clone())).collect::<Vec<_>>(), [0., 0., 1., 1.]);
    let o = cx.call("reading a .shp", || read_shp(Cursor::new(file), contents.len() + 5))?.map_err(|e| format!("file rejected: {}", e))?;
    let mut want = vec![];
    for (i, c) in contents.iter().enumerate() {
        want.push(match meaning(c) {
            Meaning::Rings(r) => { cx.note("valid record"); Ok((i as u32 + 1, r)) }
            Meaning::Error => { cx.note("inconsistent record"); Err(()) }
            Meaning::Either(r) => { cx.note("unspecified record"); match o.items.get(i) { Some(Ok(_)) => Ok((i as u32 + 1, r)), _ => Err(()) } }
        });
    }
    expect_items(&o, &want, "file with an inconsistent record")?;
    cx.state(&o);
    cx.validated += 1;
    Ok(())
}

/// Mutations of one record's content.
fn mutate(kind: u64, base: &[u8], np: usize, n: usize) -> Option<Vec<u8>> {
    let mut c = base.to_vec();
    let put = |c: &mut Vec<u8>, at: usize, v: u32| c[at..at + 4].copy_from_slice(&le(v));
    let vals: Vec<u32> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 21, 23, 25, 28, 31, 32, 44, 255, 256, 257, 65535, 65536, 0x0fff_ffff, 0x1000_0000, 0x1fff_ffff, 0x2000_0000, 0x3fff_ffff, 0x4000_0000, 0x4000_0001, 0x7fff_ffff, 0x8000_0000, 0xffff_fffb, 0xffff_fffc, 0xffff_fffd, 0xffff_fffe, 0xffff_ffff];
    let nv = vals.len() as u64;
    let mut d = Dec(kind);
    match d.take(8) {
        0 => { let v = vals[d.take(nv) as usize]; put(&mut c, 0, v); }
        1 => { let v = vals[d.take(nv) as usize]; put(&mut c, 36, v); }
        2 => { let v = vals[d.take(nv) as usize]; put(&mut c, 40, v); }
        3 => { let v = vals[d.take(nv) as usize]; let k = d.take(3) as usize; if k >= np { return None; } put(&mut c, 44 + 4 * k, v); }
        4 => { // wrong length: cut or padded (records hold a whole number of 16-bit words)
            let l = d.take(nv * 3) as usize * 2; if l == c.len() { return None; } c.resize(l, 0xaa); }
        5 => { // both counts moved consistently with the length: a part index becomes point data or the reverse
            let k = d.take(6); let (p, q) = match k { 0 => (np as i64 + 4, n as i64 - 1), 1 => (np as i64 - 4, n as i64 + 1), 2 => (np as i64 + 8, n as i64 - 2), 3 => (np as i64 + 4 * n as i64, 0), 4 => (0, n as i64), _ => (1, n as i64) };
            if p < 0 || q < 0 { return None; } put(&mut c, 36, p as u32); put(&mut c, 40, q as u32); }
        6 => { // point count that overflows 32-bit arithmetic back to the right length
            let k = d.take(4) as u32; put(&mut c, 40, (n as u32).wrapping_add((k + 1).wrapping_mul(0x1000_0000))); }
        _ => { let k = d.take(4) as u32; put(&mut c, 36, (np as u32).wrapping_add((k + 1).wrapping_mul(0x4000_0000))); }
    }
    if d.0 > 0 || c == base { return None; }
    Some(c)
}

fn c13_spaces(th: bool) -> Vec<Space> {
    let ns = STRUCT.len() as u64;
    let seqs = move |max: u32| -> u64 { (0..=max).map(|k| pow(ns, k)).sum() };
    let dec_seq = move |mut i: u64| { let mut k = 0; while i >= pow(ns, k) { i -= pow(ns, k); k += 1; } let mut d = Dec(i); (0..k).map(|_| STRUCT[d.take(ns) as usize]).collect::<Vec<_>>() };
    let max = if th { 7 } else { 6 };
    let numbering = |k: u64, i: usize| match k { 0 => i as u32 + 1, 1 => 7 * i as u32 + 3, _ => u32::MAX - i as u32 };
    let mut v = vec![];
    v.push(Space::new("good-files", seqs(max) * 3 * 3, move |i, cx| {
        let mut d = Dec(i);
        let (nb, sp, s) = (d.take(3), d.take(3), dec_seq(d.0));
        let recs: Vec<_> = s.iter().enumerate().map(|(k, st)| rec(st, k as u64 + 1, sp)).collect();
        let nums: Vec<u32> = (0..recs.len()).map(|i| numbering(nb, i)).collect();
        let b = bbox_of(recs.iter().flatten().flatten());
        shp_good(&recs, &nums, b, cx)
    }, move |i| { let mut d = Dec(i); let _ = (d.take(3), d.take(3)); format!("records with ring sizes {:?}", dec_seq(d.0)) }));
    // any two 64-bit patterns as the coordinates of any point of any ring; a file with coordinates that are no numbers may be refused
    let nsv = SPECIAL.len() as u64;
    let sv = move |i: u64| {
        let mut d = Dec(i);
        let (x, y, st) = (f64::from_bits(*d.pick(SPECIAL)), f64::from_bits(*d.pick(SPECIAL)), STRUCT[d.take(ns) as usize]);
        let n: usize = st.iter().sum();
        let k = d.take(16) as usize;
        if k >= n || d.0 > 0 { return None; }
        let mut r = rec(st, 3, 0);
        let mut at = k;
        for q in r.iter_mut() {
            let l = q.len();
            if at < l { q[at] = (x, y); if at == 0 { q[l - 1] = (x, y); } if at == l - 1 { q[0] = (x, y); } break; }
            at -= l;
        }
        Some((r, x.is_finite() && y.is_finite()))
    };
    let sv2 = sv.clone();
    v.push(Space::new("special-values", nsv * nsv * ns * 16, move |i, cx| {
        let (r, finite) = match sv(i) { None => return Ok(()), Some(x) => x };
        let (a, b) = (rec(&[4, 5], 1, 0), rec(&[6], 2, 0));
        if finite { cx.note("finite"); let bb = bbox_of(r.iter().flatten()); return shp_good(&[a, r, b], &[9, 1, 4], bb, cx); }
        cx.note("not finite");
        let bb = bbox_of(a.iter().flatten());
        let file = shp_raw(&[(9, polygon(&a)), (1, polygon(&r)), (4, polygon(&b))], bb);
        let o = cx.call("reading a .shp", || read_shp(Cursor::new(file), 8))?.map_err(|e| format!("file rejected: {}", e))?;
        let mid = match o.items.get(1) { Some(Err(_)) => Err(()), _ => Ok((1, bits(&r))) };
        expect_items(&o, &[Ok((9, bits(&a))), mid, Ok((4, bits(&b)))], "file with a coordinate that is no number")?;
        cx.state(&o);
        cx.validated += 1;
        Ok(())
    }, move |i| format!("{:?}", sv2(i))));
    v.push(Space::new("large", 40, |i, cx| {
        let mut d = Dec(i);
        let (k, m) = (d.take(10), d.take(4));
        let recs: Vec<Vec<Vec<F>>> = match m {
            0 => (0..k * 37 + 1).map(|j| rec(STRUCT[(j % 8) as usize], j, 0)).collect(),
            1 => vec![(0..k * 17 + 1).map(|j| ring(j, 4 + (j % 3) as usize, 0)).collect()],
            2 => vec![vec![ring(1, 4 + 700 * k as usize, 0)]],
            _ => vec![(0..k + 1).map(|j| ring(j, 4 + (j * 97) as usize, 0)).collect(), rec(&[4, 5], 9, 0)],
        };
        let nums: Vec<u32> = (0..recs.len() as u32).map(|i| i + 1).collect();
        let b = bbox_of(recs.iter().flatten().flatten());
        shp_good(&recs, &nums, b, cx)
    }, |i| format!("many records, rings or points, case {}", i)));
    // headers
    let bads: Vec<(usize, u8)> = [0usize, 1, 2, 3, 28, 29, 30, 31, 32, 33, 34, 35].iter().flat_map(|&p| (0..=255u8).map(move |b| (p, b))).collect();
    let nb = bads.len() as u64;
    v.push(Space::new("headers", nb, move |i, cx| {
        let mut f = shp_file(&[rec(&[4], 1, 0)], None);
        let (p, b) = bads[i as usize];
        let same = f[p] == b;
        f[p] = b;
        let r = cx.call("opening", || read_shp(Cursor::new(f), 5))?;
        cx.state(&(p, b, r.is_ok()));
        cx.validated += 1;
        match (same, r) {
            (true, Ok(_)) | (false, Err(_)) => Ok(()),
            (true, Err(e)) => Err(format!("a good header was rejected: {}", e)),
            (false, Ok(_)) => Err(format!("header byte {} = {} was accepted", p, b)),
        }
    }, |i| format!("header byte substitution {}", i)));
    // one inconsistent record among three
    let bases: Vec<Vec<usize>> = vec![vec![4], vec![4, 5], vec![5, 4, 4]];
    let space = 8 * 45 * 9;
    let f = move |i: u64| { let mut d = Dec(i); let (pos, b, kind) = (d.take(3) as usize, d.take(3) as usize, d.0);
        let base = polygon(&rec(&bases[b], 5, 0));
        mutate(kind, &base, bases[b].len(), bases[b].iter().sum()).map(|m| { let mut cs = vec![polygon(&rec(&[4], 1, 0)), polygon(&rec(&[4, 4], 2, 0))]; cs.insert(pos, m); cs }) };
    let g = f.clone();
    v.push(Space::new("one-inconsistent-record", 9 * space, move |i, cx| match f(i) { None => Ok(()), Some(cs) => check_contents(&cs, cx) }, move |i| format!("{:?}", g(i).map(|c| c.iter().map(|x| x.iter().map(|b| format!("{:02x}", b)).collect::<String>()).collect::<Vec<_>>()))));
    // every assignment of part indices
    let pv: u64 = if th { 40 } else { 16 };
    let mk = move |i: u64| { let mut d = Dec(i); let np = d.take(3) as usize + 1; let n = 8 + d.take(4) as usize; let parts: Vec<u32> = (0..np).map(|_| d.take(pv) as u32).collect();
        let mut c = polygon(&[ring(4, n, 0)]);
        c[36..40].copy_from_slice(&le(np as u32));
        let tail = c.split_off(48); c.truncate(44);
        for p in &parts { c.extend(le(*p)); }
        c.extend(tail); c };
    v.push(Space::new("part-indices", 12 * pow(pv, 3), move |i, cx| check_contents(&[polygon(&rec(&[5], 1, 0)), mk(i), polygon(&rec(&[4, 4], 2, 0))], cx), move |i| format!("{:?}", &mk(i)[36..60])));
    // two mutated records
    let two = 8 * 45;
    v.push(Space::new("two-inconsistent-records", two * two, move |i, cx| {
        let base = polygon(&rec(&[4, 4], 5, 0));
        match (mutate(i % two, &base, 2, 8), mutate(i / two, &base, 2, 8)) { (Some(a), Some(b)) => check_contents(&[a, polygon(&rec(&[4], 1, 0)), b, polygon(&rec(&[5], 2, 0))], cx), _ => Ok(()) }
    }, move |i| format!("mutations {} and {}", i % two, i / two)));
    // the declared file length ends inside a record
    v.push(Space::new("declared-length", 300, |i, cx| {
        let recs = vec![rec(&[4], 1, 0), rec(&[4, 4], 2, 0), rec(&[5], 3, 0)];
        let mut f = shp_file(&recs, None);
        let total = f.len();
        let len = 100 + 2 * i as usize;
        if len > total { return Ok(()); }
        f[24..28].copy_from_slice(&be((len / 2) as u32));
        let o = cx.call("reading", || read_shp(Cursor::new(f), 9))?.map_err(|e| format!("rejected: {}", e))?;
        let mut end = 100;
        let mut want = vec![];
        for (k, r) in recs.iter().enumerate() { let l = 8 + polygon(r).len(); if end >= len { break; } end += l; want.push(if end <= len { Ok((k as u32 + 1, bits(r))) } else { Err(()) }); }
        expect_items(&o, &want, &format!("declared length {} of {}", len, total))?;
        cx.state(&o); cx.validated += 1;
        Ok(())
    }, |i| format!("declared length {}", 100 + 2 * i)));
    // bytes that say nothing about the polygons: unused header bytes, Z and M ranges, the records' own bounding boxes.
    // A reader may refuse values it finds odd, but never return something else.
    let quiet: Vec<usize> = (4..24).chain(68..100).chain(112..144).collect();
    let nq = quiet.len() as u64;
    v.push(Space::new("bytes-without-meaning", nq * 256, move |i, cx| {
        let recs = vec![rec(&[4, 5], 1, 0), rec(&[6], 2, 0)];
        let mut f = shp_file(&recs, Some([-3., -700., 900., 2.]));
        let total = f.len();
        f[quiet[(i / 256) as usize]] = i as u8;
        let in_record = quiet[(i / 256) as usize] >= 100;
        cx.validated += 1;
        let o = match cx.call("reading", || read_shp(Cursor::new(f), 9))? { Err(_) if !in_record => { cx.note("refused"); return Ok(()) } Err(e) => return Err(format!("rejected: {}", e)), Ok(o) => o };
        let first = if in_record && o.items.first().map_or(false, |x| x.is_err()) { Err(()) } else { Ok((1, bits(&recs[0]))) };
        expect_items(&o, &[first, Ok((2, bits(&recs[1])))], "file with an odd byte")?;
        if o.n_bytes != total || o.bbox != [-3f64, -700., 900., 2.].map(|x| x.to_bits()) { return Err("length or bounding box read from the wrong place".into()); }
        cx.state(&o);
        Ok(())
    }, |i| format!("byte number {} = {}", i / 256, i % 256)));
    // any bounding box in the header is handed on bit for bit; one that is no box may be refused
    const BOX: &[f64] = &[-1.5, 0.0, -0.0, 2.25, 180.0, 1.7e308, -1.7e308, 1e-310, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
    v.push(Space::new("bounding-boxes", pow(BOX.len() as u64, 4), |i, cx| {
        let mut d = Dec(i);
        let b = [*d.pick(BOX), *d.pick(BOX), *d.pick(BOX), *d.pick(BOX)];
        let recs = vec![rec(&[4, 5], 1, 0), rec(&[6], 2, 0)];
        if b.iter().all(|x| x.is_finite()) && b[0] <= b[2] && b[1] <= b[3] { cx.note("a box"); return shp_good(&recs, &[1, 2], b, cx); }
        cx.note("no box");
        let f = shp_file(&recs, Some(b));
        match cx.call("opening", || read_shp(Cursor::new(f), 9))? {
            Err(_) => Ok(()),
            Ok(o) if o.bbox == b.map(|x| x.to_bits()) => expect_items(&o, &[Ok((1, bits(&recs[0]))), Ok((2, bits(&recs[1])))], "file with an odd bounding box"),
            Ok(o) => Err(format!("bounding box {:?} reported as {:?}", b, o.bbox.map(f64::from_bits))),
        }
    }, |i| { let mut d = Dec(i); format!("bounding box {:?}", [d.pick(BOX), d.pick(BOX), d.pick(BOX), d.pick(BOX)]) }));
    v.push(Space::new("very-large", 8, |i, cx| {
        let recs: Vec<Vec<Vec<F>>> = match i {
            0 => vec![vec![ring(1, 65_535, 0), ring(2, 4, 0)], rec(&[4], 3, 0)],
            1 => vec![rec(&[4], 3, 0), vec![ring(1, 4, 0), ring(7, 65_537, 0), ring(2, 9, 0)], rec(&[4], 3, 0)],
            2 => vec![rec(&[4], 3, 0), (0..66_000).map(|j| ring(j, 4, 0)).collect()],
            3 => (0..66_000).map(|j| rec(STRUCT[(j % 8) as usize], j, 0)).collect(),
            4 => vec![vec![ring(1, 300_000, 0)], rec(&[5], 3, 0)],
            5 => vec![vec![ring(1, 1_100_000, 0)], rec(&[5], 3, 0)],
            6 => (0..300_000).map(|j| rec(STRUCT[(j % 8) as usize], j, 0)).collect(),
            _ => vec![(0..300_000).map(|j| ring(j, 4 + (j % 7) as usize, 0)).collect(); 2],
        };
        let nums: Vec<u32> = (0..recs.len() as u32).map(|i| i + 1).collect();
        let b = bbox_of(recs.iter().flatten().flatten());
        shp_good(&recs, &nums, b, cx)
    }, |i| format!("very large file {}", i)));
    v
}

// ---- C14
#[derive(Clone, Debug, PartialEq)]
enum Val { Is(String), Bad, May(String) }
fn w1252(b: u8) -> char {
    const T: [u32; 32] = [0x20AC, 0x81, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x8D, 0x017D, 0x8F, 0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x9D, 0x017E, 0x0178];
    char::from_u32(if (0x80..0xa0).contains(&b) { T[b as usize - 0x80] } else { b as u32 }).unwrap()
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Enc { Ascii, Utf8, W1252 }
impl Enc {
    fn real(&self) -> encoding::EncodingRef { match self { Enc::Ascii => encoding::all::ASCII, Enc::Utf8 => encoding::all::UTF_8, Enc::W1252 => encoding::all::WINDOWS_1252 } }
    fn decode(&self, b: &[u8]) -> Option<String> {
        match self {
            Enc::Ascii => if b.iter().all(|x| *x < 128) { Some(b.iter().map(|&x| x as char).collect()) } else { None },
            Enc::Utf8 => std::str::from_utf8(b).ok().map(|s| s.to_string()),
            Enc::W1252 => Some(b.iter().map(|&x| w1252(x)).collect()),
        }
    }
}
const ENCS: [Enc; 3] = [Enc::Ascii, Enc::Utf8, Enc::W1252];
fn value(ty: u8, b: &[u8], enc: Enc) -> Val {
    match ty {
        b'C' => { let n = b.iter().rposition(|&x| x != b' ').map_or(0, |k| k + 1); match enc.decode(&b[..n]) { Some(s) => Val::Is(s), None => Val::Bad } }
        b'N' => {
            let s = match std::str::from_utf8(b) { Ok(s) => s, Err(_) => return Val::Bad };
            let core = s.trim_start_matches(' ');
            let digits = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit());
            let plain = |x: &str| { let y = x.strip_prefix('-').unwrap_or(x); match y.split_once('.') { None => digits(y), Some((a, b)) => digits(a) && digits(b) } };
            if plain(core) { return Val::Is(core.to_string()); }
            // number-like texts the format descriptions disagree on: an error or the text itself
            let t = core.trim_end_matches(' ');
            let u = t.strip_prefix(['-', '+']).unwrap_or(t);
            let lax = !u.is_empty() && u.bytes().any(|c| c.is_ascii_digit()) && u.bytes().all(|c| c.is_ascii_digit() || b".eE+-".contains(&c)) && u.parse::<f64>().is_ok();
            if lax { Val::May(t.to_string()) } else { Val::Bad }
        }
        b'+' | b'|' => if b.len() == 4 { Val::Is(u32::from_le_bytes([b[0], b[1], b[2], b[3]]).to_string()) } else if b.len() < 4 { Val::Bad } else { Val::May(u32::from_le_bytes([b[0], b[1], b[2], b[3]]).to_string()) },
        _ => Val::Bad,
    }
}
fn check_dbf(fields: &[Field], recs: &[Vec<Vec<u8>>], enc: Enc, eof: bool, cx: &mut Cx) -> R {
    let file = dbf_file(fields, recs, eof);
    let e = enc.real();
    let o = cx.call("reading a .dbf", || read_dbf(Cursor::new(file), e, recs.len() + 5))?.map_err(|e| format!("a good file was rejected: {}", e))?;
    let names: Vec<String> = fields.iter().map(|f| enc.decode(&f.name).unwrap()).collect();
    if o.names != names { return Err(format!("fields {:?}, expected {:?}", o.names, names)); }
    if o.items.len() != recs.len() || !o.ended { return Err(format!("{} items (ended: {}), expected {}", o.items.len(), o.ended, recs.len())); }
    for (i, (it, r)) in o.items.iter().zip(recs).enumerate() {
        let vals = match it { Ok(v) => &v.1, Err(e) => return Err(format!("record {} gave an error: {}", i, e)) };
        for (k, (g, b)) in vals.iter().zip(r).enumerate() {
            let w = value(fields[k].ty, b, enc);
            let ok = match (&w, g) { (Val::Is(s), Ok(t)) => s == t, (Val::Bad, Err(_)) => true, (Val::May(s), Ok(t)) => s == t || String::from_utf8_lossy(b).trim_start() == t, (Val::May(_), Err(_)) => true, _ => false };
            cx.note(match w { Val::Is(_) => "readable value", Val::Bad => "unreadable value", Val::May(_) => "unspecified value" });
            if !ok { return Err(format!("record {} field {} ({}{}) with bytes {:?} in {:?} reads {:?}, expected {:?}", i, k, fields[k].ty as char, fields[k].len, b, enc, g, w)); }
        }
    }
    cx.state(&o);
    cx.validated += 1;
    Ok(())
}
fn by_name(fields: &[Field], rec: &[Vec<u8>], cx: &mut Cx) -> R {
    let file = dbf_file(fields, &[rec.to_vec()], true);
    let (got, none) = cx.call("looking up fields", || {
        let mut r = topogeo::read::shapefile::dbf::DbfReader::new(Cursor::new(file), utf8()).map_err(|e| e.to_string())?;
        let fs: Vec<_> = fields.iter().map(|f| r.get_field(std::str::from_utf8(&f.name).unwrap())).collect();
        // spellings that come close to a field's name are other names
        let mut none = r.get_field("absent").is_none();
        for f in fields {
            let n = std::str::from_utf8(&f.name).unwrap();
            let mut near = vec![n.to_uppercase(), n.to_lowercase(), format!("{} ", n), format!(" {}", n), format!("{}_", n), format!("{}\0", n), n.chars().rev().collect(), n.trim().to_string()];
            for k in 0..n.len() { if n.is_char_boundary(k) { near.push(n[..k].to_string()); near.push(n[k..].to_string()); } }
            for x in near { none &= fields.iter().any(|g| g.name == x.as_bytes()) || r.get_field(&x).is_none(); }
        }
        let x = r.next().ok_or("no record".to_string())?.map_err(|e| e.to_string())?;
        Ok::<_, String>((fs.into_iter().map(|f| f.map(|f| (f.name.clone(), f.read_string(&x).ok()))).collect::<Vec<_>>(), none))
    })??;
    if !none { return Err("a field that does not exist was found".into()); }
    for (f, g) in fields.iter().zip(&got) {
        let n = String::from_utf8(f.name.clone()).unwrap();
        let k = fields.iter().position(|x| x.name == f.name).unwrap();
        let want = match value(f.ty, &rec[k], Enc::Utf8) { Val::Is(s) => Some(s), _ => None };
        if g.as_ref() != Some(&(n.clone(), want.clone())) { return Err(format!("field {} looked up by name reads {:?}, expected {:?}", n, g, want)); }
    }
    cx.validated += 1;
    Ok(())
}

const FSPECS: &[(char, u8)] = &[('C', 1), ('C', 4), ('N', 3), ('N', 6), ('+', 4), ('|', 4), ('L', 1), ('D', 8), ('F', 5), ('C', 0)];
fn sample(ty: u8, len: u8, k: u64) -> Vec<u8> {
    let n = len as usize;
    match ty {
        b'C' => { let all: Vec<Vec<u8>> = [b"".as_slice(), b"a", b"b c", b" x", b"Z"].iter().filter(|s| s.len() <= n).map(|s| padr(s, n)).collect(); all[k as usize % all.len()].clone() }
        b'N' => { let all: Vec<Vec<u8>> = [b"7".as_slice(), b"0", b"-12", b"3.5", b"12.34", b"", b"x1"].iter().filter(|s| s.len() <= n).map(|s| padl(s, n)).collect(); all[k as usize % all.len()].clone() }
        b'+' | b'|' => le([0, 1, 258, 0x0102_0304, 0x8000_0001, 0xffff_ffff][k as usize % 6]).to_vec(),
        b'D' => b"20170615"[..n].to_vec(),
        _ => { let all = [b'T', b'7', b' ', b'?']; vec![all[k as usize % 4]; n] }
    }
}

/// Other encodings, as the encoding library itself decodes the trimmed bytes.
const LABELS: &[&str] = &["iso-8859-2", "iso-8859-5", "iso-8859-7", "iso-8859-15", "windows-1250", "windows-1251", "windows-1253", "windows-1257", "ibm866", "koi8-r", "macintosh", "shift_jis", "euc-jp", "gbk", "gb18030", "big5", "euc-kr"];
fn other_encoding(i: u64, cx: &mut Cx) -> R {
    let enc = encoding::label::encoding_from_whatwg_label(LABELS[(i / 256) as usize]).unwrap();
    let hi = i as u8;
    let want = |b: &[u8]| { let n = b.iter().rposition(|&x| x != b' ').map_or(0, |k| k + 1); enc.decode(&b[..n], encoding::DecoderTrap::Strict).ok() };
    let recs: Vec<Vec<Vec<u8>>> = (0..=255u8).map(|lo| vec![vec![hi, lo, b' '], vec![b'x', hi, lo], vec![lo]]).collect();
    let fields = [field("a", 'C', 3), field("b", 'C', 3), field("c", 'C', 1)];
    let file = dbf_file(&fields, &recs, true);
    let o = cx.call("reading a .dbf", || read_dbf(Cursor::new(file), enc, 300))?.map_err(|e| format!("a good file was rejected: {}", e))?;
    if o.items.len() != 256 || !o.ended { return Err(format!("{} items, expected 256", o.items.len())); }
    for (it, r) in o.items.iter().zip(&recs) {
        let vals = match it { Ok(v) => &v.1, Err(e) => return Err(format!("a record gave an error: {}", e)) };
        for (g, b) in vals.iter().zip(r) {
            if g.as_ref().ok() != want(b).as_ref() { return Err(format!("bytes {:?} in {} read {:?}, expected {:?}", b, enc.name(), g, want(b))); }
            cx.validated += 1;
        }
    }
    // and as the name of a field
    for lo in 0..=255u8 {
        if hi == 0 || hi == 13 { break; }
        let name: Vec<u8> = [hi, lo, b'z'].iter().cloned().take_while(|&b| b != 0).collect();
        let f = dbf_file(&[Field { name: name.clone(), ty: b'C', len: 2 }], &[vec![b"ok".to_vec()]], true);
        let o = cx.call("reading a .dbf", || DbfReader::new(Cursor::new(f), enc).map_err(|e| e.to_string()).map(|r| r.meta.fields.iter().map(|f| f.name.clone()).collect::<Vec<_>>()))?;
        let w = enc.decode(&name, encoding::DecoderTrap::Strict).ok();
        if o.as_ref().ok().map(|n| &n[..]) != w.as_ref().map(std::slice::from_ref) { return Err(format!("field name {:?} in {} read {:?}, expected {:?}", name, enc.name(), o, w)); }
        cx.validated += 1;
    }
    cx.state(&o);
    Ok(())
}
/// Every function that opens by path decodes names and values in the encoding it says.
fn opened_encoding(i: u64, cx: &mut Cx) -> R {
    use topogeo::read::shapefile as s;
    let (how, hi) = (i / 128, (i % 128) as u8 + 128);
    let enc = match how { 0 | 3 => Enc::Utf8, 1 | 5 => Enc::Ascii, 2 | 6 => Enc::W1252, _ => Enc::W1252 };
    let recs: Vec<Vec<Vec<u8>>> = (0..=255u8).map(|lo| vec![vec![hi, lo, b' '], vec![b'x', lo, hi]]).collect();
    let fields = [field("a", 'C', 3), field("b", 'C', 3)];
    let dir = std::env::temp_dir().join(format!("mc-c14-{}-{}", std::process::id(), i));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let (sp, dp) = (dir.join("x.shp"), dir.join("x.dbf"));
    let shape = vec![vec![(0., 0.), (0., 1.), (1., 1.), (0., 0.)]];
    let ok = std::fs::write(&sp, shp_file(&vec![shape; 256], None)).is_ok() && std::fs::write(&dp, dbf_file(&fields, &recs, true)).is_ok();
    let got = cx.call("opening by path", || -> Result<Vec<Vec<Option<String>>>, String> {
        let e = |x: String| x;
        macro_rules! all { ($r:expr, $f:expr, $d:expr) => {{ let r = $r.map_err(|x| e(x.to_string()))?; let f = $f(&r); r.map(|x| x.map_err(|x| x.to_string()).map(|x| f.iter().map(|f| f.read_string($d(&x)).ok()).collect())).collect() }} }
        fn fs<R: std::io::Read, S: std::io::Read>(r: &ShapefileReader<R, S>) -> Vec<s::DbfField> { r.dbf_fields().to_vec() }
        fn fd<R: std::io::Read>(r: &DbfReader<R>) -> Vec<s::DbfField> { r.meta.fields.to_vec() }
        fn ds(x: &s::shapefile::ShapefileRecord) -> &s::DbfRecord { &x.data }
        fn dd(x: &s::DbfRecord) -> &s::DbfRecord { x }
        match how {
            0 => all!(s::open_utf8(&sp), fs, ds),
            1 => all!(s::open_ascii(&sp), fs, ds),
            2 => all!(s::open_windows1252(&sp), fs, ds),
            3 => all!(s::open(&sp, enc.real()), fs, ds),
            4 => all!(s::shapefile::open(&sp, enc.real()), fs, ds),
            5 => all!(s::dbf::open_ascii(&dp), fd, dd),
            _ => all!(s::dbf::open(&dp, enc.real()), fd, dd),
        }
    });
    let _ = std::fs::remove_file(&sp);
    let _ = std::fs::remove_file(&dp);
    let _ = std::fs::remove_dir(&dir);
    if !ok { return Err("cannot write to the temporary directory".into()); }
    let got = got??;
    if got.len() != 256 { return Err(format!("{} records, expected 256", got.len())); }
    for (g, r) in got.iter().zip(&recs) {
        for (g, b) in g.iter().zip(r) {
            let w = match value(b'C', b, enc) { Val::Is(s) => Some(s), _ => None };
            if *g != w { return Err(format!("open function {}: bytes {:?} read {:?}, expected {:?}", how, b, g, w)); }
            cx.validated += 1;
        }
    }
    cx.state(&got);
    Ok(())
}
fn c14_spaces(th: bool) -> Vec<Space> {
    let nf = FSPECS.len() as u64;
    let maxf: u32 = 4;
    let total: u64 = (0..=maxf).map(|k| pow(nf, k)).sum();
    let mk = move |i: u64| {
        let mut d = Dec(i);
        let (recs, shift, eof) = (d.take(4), d.take(7), d.take(2) == 1);
        let (mut j, mut k) = (d.0, 0u32);
        while j >= pow(nf, k) { j -= pow(nf, k); k += 1; }
        let mut d = Dec(j);
        let fields: Vec<Field> = (0..k).map(|n| { let s = FSPECS[d.take(nf) as usize]; field(["id", "NAME_LONG1", "ID", "name_long1"][n as usize], s.0, s.1) }).collect();
        let rs: Vec<Vec<Vec<u8>>> = (0..recs).map(|r| fields.iter().enumerate().map(|(n, f)| sample(f.ty, f.len, shift + r + 2 * n as u64)).collect()).collect();
        (fields, rs, eof)
    };
    let mk2 = mk.clone();
    let mut v = vec![Space::new("field-lists", total * 4 * 7 * 2, move |i, cx| {
        let (f, r, eof) = mk(i);
        check_dbf(&f, &r, ENCS[(i % 3) as usize], eof, cx)?;
        if let Some(x) = r.first() { by_name(&f, x, cx)?; }
        Ok(())
    }, move |i| format!("{:?}", mk2(i)))];
    // values, each between two neighbours that must stay untouched
    let val = |name: String, ty: char, bytes: Vec<Vec<u8>>| {
        let all = std::sync::Arc::new(bytes); let a2 = all.clone();
        Space::new(name, all.len() as u64 * 3, move |i, cx| {
            let b = &all[(i / 3) as usize];
            let f = vec![field("a", 'C', 2), field("v", ty, b.len() as u8), field("z", 'N', 2)];
            check_dbf(&f, &[vec![b"ab".to_vec(), b.clone(), b"42".to_vec()], vec![b"9 ".to_vec(), b.clone(), b"-1".to_vec()]], ENCS[(i % 3) as usize], true, cx)
        }, move |i| format!("{} value {:?} in {:?}", ty, a2[(i / 3) as usize], ENCS[(i % 3) as usize]))
    };
    let all1: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    let all2: Vec<Vec<u8>> = (0..=65535u32).map(|b| vec![b as u8, (b >> 8) as u8]).collect();
    let words = |alpha: &[u8], n: usize| -> Vec<Vec<u8>> { (0..pow(alpha.len() as u64, n as u32)).map(|i| { let mut d = Dec(i); (0..n).map(|_| *d.pick(alpha)).collect() }).collect() };
    let num = b" -05.9x\0\n+e";
    let chr = [b' ', b'a', 0, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0x80, 0xff, b'\t'];
    for ty in ['C', 'N', 'L'] { v.push(val(format!("every-byte-{}", ty), ty, all1.clone())); }
    v.push(val("two-bytes-C".into(), 'C', all2.clone()));
    v.push(val("two-bytes-N".into(), 'N', all2));
    v.push(val("words-N3".into(), 'N', words(num, 3)));
    v.push(val("words-N4".into(), 'N', words(num, 4)));
    v.push(val("words-N6".into(), 'N', words(b" -0.7", 6)));
    v.push(val("words-C3".into(), 'C', words(&chr, 3)));
    v.push(val("words-C4".into(), 'C', words(&chr, 4)));
    v.push(val("words-C5".into(), 'C', words(&chr[..9], 5))); v.push(val("words-N5".into(), 'N', words(num, 5))); v.push(val("words-N8".into(), 'N', words(b" -0.7", 8)));
    v.push(val("three-bytes-C".into(), 'C', (0..1u32 << 24).filter(|b| th || b % 3 == 0).map(|b| le(b)[..3].to_vec()).collect()));
    if th { v.push(val("three-bytes-N".into(), 'N', (0..1u32 << 24).map(|b| le(b)[..3].to_vec()).collect())); v.push(val("words-N7".into(), 'N', words(&num[..8], 7))); v.push(val("words-C7".into(), 'C', words(&chr[..7], 7))); }
    // numbers and texts of every length a field can have
    let mut nums: Vec<Vec<u8>> = vec![];
    for l in 1..=255usize { for kind in 0..3u8 {
        let digits: Vec<u8> = (0..l).map(|k| match kind { 0 => b'0' + ((k * 7 + l) % 10) as u8, 1 => b'9', _ => b'0' }).collect();
        for pad in [0usize, 1, 3] { for neg in 0..2usize {
            if pad + neg >= l { continue; }
            let mut x = digits.clone();
            for c in x[..pad].iter_mut() { *c = b' '; }
            if neg == 1 { x[pad] = b'-'; }
            nums.push(x.clone());
            if kind > 0 && l % 16 > 1 { continue; }
            for dot in pad + neg..l { if l < 70 || dot % 5 == l % 5 || dot + 3 > l || dot < pad + neg + 2 { let mut y = x.clone(); y[dot] = b'.'; nums.push(y); } }
        } }
    } }
    v.push(val("lengths-N".into(), 'N', nums));
    let mut txts: Vec<Vec<u8>> = vec![];
    for l in 0..=255usize { for trail in (0..=l).filter(|t| l < 40 || t % 7 == l % 7 || t + 2 > l || *t < 3) { for kind in 0..4 {
        let fill: &[u8] = match kind { 0 => b"x", 1 => b"ab  ", 2 => "\u{e9}".as_bytes(), _ => b" Z" };
        let mut x: Vec<u8> = fill.iter().cycle().take(l - trail).cloned().collect(); x.resize(l, b' '); txts.push(x);
    } } }
    v.push(val("lengths-C".into(), 'C', txts));
    let longs: Vec<Vec<u8>> = (0..10_000u32).map(|i| le(i.wrapping_mul(429_497) ^ (i << 24)).to_vec()).chain((0..32).flat_map(|k| [1u32 << k, (1u32 << k).wrapping_sub(1)]).map(|x| le(x).to_vec())).chain((0..5).map(|n| vec![7u8; n])).chain([vec![1, 0, 0, 0, 9, 9, 9, 9]]).collect();
    v.push(val("integers".into(), '+', longs.clone()));
    v.push(val("integers-bar".into(), '|', longs));
    // every type code
    v.push(Space::new("other-encodings", LABELS.len() as u64 * 256, other_encoding, |i| format!("encoding {}, first byte {}", LABELS[(i / 256) as usize], i % 256)));
    v.push(Space::new("opened-encodings", 7 * 128, opened_encoding, |i| format!("open function {}, first byte {}", i / 128, i % 128 + 128)));
    v.push(Space::new("type-codes", 256 * 3, |i, cx| {
        let f = vec![field("a", 'C', 1), Field { name: b"t".to_vec(), ty: (i / 3) as u8, len: [1u8, 4, 8][(i % 3) as usize] }, field("z", 'C', 1)];
        let mid = vec![b'1'; f[1].len as usize];
        check_dbf(&f, &[vec![b"p".to_vec(), mid, b"q".to_vec()]], Enc::Utf8, true, cx)
    }, |i| format!("type code {}", i / 3)));
    // names
    v.push(Space::new("names", 12 * 4, |i, cx| {
        let n = (i % 12) as usize;
        let name: Vec<u8> = match i / 12 { 0 => b"ABCDEFGHIJK"[..n].to_vec(), 1 => "\u{e9}t\u{e9}_\u{e9}12345".as_bytes()[..n.min(2)].to_vec(), 2 => b"a b-c_d.e/f"[..n].to_vec(), _ => b"zzzzzzzzzzz"[..n].to_vec() };
        let mut f = vec![field("first", 'N', 2)];
        f.push(Field { name, ty: b'C', len: 3 });
        if std::str::from_utf8(&f[1].name).is_err() { return Ok(()); }
        let r = vec![b" 5".to_vec(), b"xyz".to_vec()];
        check_dbf(&f, &[r.clone()], Enc::Utf8, true, cx)?;
        if f[1].name.is_empty() { return Ok(()); }
        by_name(&f, &r, cx)
    }, |i| format!("name case {}", i)));
    // dates, and bytes that say nothing about the fields
    let plain = || (vec![field("first", 'N', 3), field("second_nam", 'C', 5), field("third", '+', 4)], vec![vec![b" 12".to_vec(), b"ab cd".to_vec(), le(77).to_vec()], vec![b"-0.".to_vec(), b"x    ".to_vec(), le(0xfedc_ba98).to_vec()], vec![b"  7".to_vec(), b"     ".to_vec(), le(3).to_vec()]]);
    let same = move |file: Vec<u8>, may_refuse: bool, cx: &mut Cx| -> R {
        let (f, r) = plain();
        let good = read_dbf(Cursor::new(dbf_file(&f, &r, true)), utf8(), 9).map_err(|e| format!("a good file was rejected: {}", e))?;
        cx.validated += 1;
        match cx.call("reading a .dbf", || read_dbf(Cursor::new(file), utf8(), 9))? {
            Err(_) if may_refuse => { cx.note("refused"); Ok(()) }
            Err(e) => Err(format!("a good file was rejected: {}", e)),
            Ok(o) => { cx.state(&o); if o.names == good.names && o.ended && o.items.len() == good.items.len() && o.items.iter().zip(&good.items).all(|(a, b)| a.as_ref().map(|x| &x.1) == b.as_ref().map(|x| &x.1)) { Ok(()) } else { Err(format!("read as {:?} instead of {:?}", o, good)) } }
        }
    };
    v.push(Space::new("dates", 256 * 12 * 31, move |i, cx| {
        let (f, r) = plain();
        let mut b = dbf_file(&f, &r, true);
        let mut d = Dec(i);
        b[1] = d.take(256) as u8; b[2] = d.take(12) as u8 + 1; b[3] = d.take(31) as u8 + 1;
        same(b, false, cx)
    }, |i| format!("date {}", i)));
    // (offset, may be refused): version, reserved, transaction, encryption, multi-user, MDX, language driver; in every
    // descriptor the address, decimal count, work area, flags and index flag; the records' deletion flags; what follows the NUL of a name
    let mut quiet: Vec<(usize, bool)> = vec![(0, true)];
    quiet.extend((12..32).map(|p| (p, !(p == 28 || p == 29))));
    for k in 0..3 { let at = 32 + 32 * k; quiet.extend((12..16).map(|p| (at + p, false))); quiet.push((at + 17, k != 0)); quiet.extend((18..32).map(|p| (at + p, false))); }
    quiet.extend((6..11).map(|p| (32 + p, false)));
    quiet.extend((6..11).map(|p| (96 + p, false)));
    for k in 0..3 { quiet.push((129 + 13 * k, true)); }
    quiet.push((129 + 39, false));
    let nq = quiet.len() as u64;
    v.push(Space::new("bytes-without-meaning", nq * 256, move |i, cx| {
        let (f, r) = plain();
        let mut b = dbf_file(&f, &r, true);
        let (p, may) = quiet[(i / 256) as usize];
        b[p] = i as u8;
        same(b, may, cx)
    }, |i| format!("byte number {} = {}", i / 256, i % 256)));
    // what may follow the field descriptors: nothing, the terminator, and reserved bytes of any kind
    v.push(Space::new("header-tails", 400 * 4, move |i, cx| {
        let (f, r) = plain();
        let b = dbf_file(&f, &r, true);
        let (n, kind) = ((i / 4) as usize, i % 4);
        let mut h = b[..128].to_vec();
        if n > 0 { h.push(0x0d); for k in 1..n { h.push(match kind { 0 => 0, 1 => b'A', 2 => 0x0d, _ => (k * 37) as u8 }); } }
        let l = h.len() as u16;
        h[8..10].copy_from_slice(&l.to_le_bytes());
        h.extend(&b[129..]);
        same(h, n == 0, cx)
    }, |i| format!("{} bytes after the field descriptors, kind {}", i / 4, i % 4)));
    v.push(Space::new("very-large", 5, |i, cx| {
        let (nf, nr, len) = [(2046usize, 2usize, 32u8), (257, 3, 254), (1, 66_000, 4), (3, 70_001, 6), (2, 300_001, 5)][i as usize];
        let fields: Vec<Field> = (0..nf).map(|j| field(&format!("f{}", j), if j % 3 == 1 { 'N' } else { 'C' }, len)).collect();
        let recs: Vec<Vec<Vec<u8>>> = (0..nr).map(|r| fields.iter().enumerate().map(|(j, f)| { let s = format!("{}", (r * 7 + j) % 9973); if f.ty == b'N' { padl(s.as_bytes(), f.len as usize) } else { padr(s.as_bytes(), f.len as usize) } }).collect()).collect();
        check_dbf(&fields, &recs, ENCS[(i % 3) as usize], i % 2 == 0, cx)
    }, |i| format!("very large case {}", i)));
    // many and wide fields, many records
    v.push(Space::new("large", 60, |i, cx| {
        let mut d = Dec(i);
        let (k, m) = (d.take(10), d.take(6));
        let (nf, nr, len) = match m { 0 => (1 + k * 14, 2, 3u8), 1 => (3, 1 + k * 101, 5), 2 => (2, 3, 246 + k as u8), 3 => (1 + k * 25, 3, 255), 4 => (k, 0, 9), _ => (1, 60 * k + 250, 1) };
        let fields: Vec<Field> = (0..nf).map(|j| field(&format!("f{}", j), if j % 3 == 1 && len > 2 { 'N' } else { 'C' }, len)).collect();
        let recs: Vec<Vec<Vec<u8>>> = (0..nr).map(|r| fields.iter().enumerate().map(|(j, f)| { let s = format!("{}", (r * 7 + j as u64) % 10u64.pow(3.min(f.len as u32))); if f.ty == b'N' { padl(s.as_bytes(), f.len as usize) } else { padr(s.as_bytes(), f.len as usize) } }).collect()).collect();
        check_dbf(&fields, &recs, ENCS[(i % 3) as usize], i % 2 == 0, cx)
    }, |i| format!("large case {}", i)));
    v
}

// ---- C15
fn good_shape(i: usize) -> Vec<Vec<F>> { rec(STRUCT[i % 3], 20 + i as u64, 0) }
fn attr(i: usize) -> Vec<Vec<u8>> { vec![padr(format!("n{}", i).as_bytes(), 4), padl(format!("{}", i * 3).as_bytes(), 3)] }
fn attr_fields() -> Vec<Field> { vec![field("name", 'C', 4), field("num", 'N', 3)] }

/// Drains a pair reader into (rings, name, num) or errors.
type Joined = Result<(Bits, Result<String, String>, Result<String, String>), String>;
fn drain<T: std::io::Read, U: std::io::Read>(mut r: ShapefileReader<T, U>, limit: usize) -> Result<(Vec<Joined>, bool), String> {
    let (a, b) = (r.get_field("name").ok_or("no field name")?, r.get_field("num").ok_or("no field num")?);
    let mut out = vec![];
    while out.len() < limit {
        match r.next() {
            None => { let again = r.next().is_some(); return Ok((out, !again)); }
            Some(Ok(x)) => out.push(Ok((ring_bits(&x.rings), a.read_string(&x.data).map_err(|e| e.to_string()), b.read_string(&x.data).map_err(|e| e.to_string())))),
            Some(Err(e)) => out.push(Err(e.to_string())),
        }
    }
    Ok((out, false))
}
fn joined(i: usize) -> Joined { Ok((bits(&good_shape(i)), Ok(format!("n{}", i)), Ok(format!("{}", i * 3)))) }

fn c15_case(shapes: &[bool], nd: usize, cut_shp: usize, cut_dbf: usize, cx: &mut Cx) -> R {
    let contents: Vec<(u32, Vec<u8>)> = shapes.iter().enumerate().map(|(i, &ok)| { let mut c = polygon(&good_shape(i)); if !ok { match i % 3 { 0 => c[0] = 3, 1 => c.truncate(40), _ => c[40] = 99 } } (i as u32 + 1, c) }).collect();
    let mut shp = shp_raw(&contents, [0., 0., 1., 1.]);
    let mut dbf = dbf_file(&attr_fields(), &(0..nd).map(attr).collect::<Vec<_>>(), false);
    // truncation inside record `cut - 1`
    let rl = 8;
    let dend = |k: usize| 33 + 64 + rl * k;
    if cut_dbf > 0 { if cut_dbf > nd { return Ok(()); } dbf.truncate(dend(cut_dbf - 1) + 3); }
    if cut_shp > 0 { if cut_shp > shapes.len() { return Ok(()); } let e: usize = 100 + contents[..cut_shp - 1].iter().map(|c| 8 + c.1.len()).sum::<usize>(); shp.truncate(e + 5); }
    let (out, ended) = cx.call("reading a pair", || ShapefileReader::new(Cursor::new(shp), Cursor::new(dbf), utf8()).map_err(|e| e.to_string()).and_then(|r| drain(r, 40)))?.map_err(|e| format!("opening failed: {}", e))?;
    if !ended { return Err(format!("the iterator does not end: {} items", out.len())); }
    let ns = shapes.len();
    let broken = |i: usize| (cut_shp > 0 && i >= cut_shp - 1) || (cut_dbf > 0 && i >= cut_dbf - 1);
    let whole = cut_shp == 0 && cut_dbf == 0;
    let steps = ns.max(nd);
    if whole && out.len() != steps { return Err(format!("{} items for {} shapes and {} attribute records", out.len(), ns, nd)); }
    // the record in which a file breaks off is the affected step, unless an earlier one ended the other file
    let first_cut = [cut_shp, cut_dbf].iter().filter(|c| **c > 0).min().cloned();
    if let Some(c) = first_cut { if out.len() < c { return Err(format!("only {} items although a file breaks off in record {}", out.len(), c)); } }
    for (i, o) in out.iter().enumerate() {
        let good = i < ns && i < nd && shapes[i] && !broken(i);
        match (good, o) {
            (true, o) if *o == joined(i) => {}
            (false, Err(_)) => {}
            _ => return Err(format!("item {} is {:?}, expected {}", i, o, if good { "that shape with its attributes" } else { "an error" })),
        }
    }
    cx.note(if whole && ns == nd && shapes.iter().all(|x| *x) { "clean join" } else { "mismatch or bad record" });
    cx.state(&(out, shapes, nd));
    cx.validated += 1;
    Ok(())
}

/// Directory and file name (without extension), extension, and whether the path is given relative to the working directory.
const PATHS: [(&[u8], &[u8], &str, u8); 16] = [
    (b"d", b"plain", "shp", 0), (b"d", b"two.dots", "shp", 0), (b"d", b"with space", "shp", 0), (b"a.shp", b"x", "shp", 0),
    (b"a.shp", b"b.shp", "shp", 0), (b"d", b"shp", "shp", 0), (b"d.e", b"noext", "", 0), (b"d", b"x", "SHP", 0), (b"d", b"x", "data", 0),
    (b"d", b"caf\xc3\xa9", "shp", 0), (b"d", b"caf\xe9", "shp", 0), (b"\xff\xfe", b"x", "shp", 0), (b"d", b"plain", "shp", 1), (b"d", b".hidden", "shp", 0),
    (b"d", b"link", "shp", 2), (b"d", b"other", "shp", 2)];
/// Opening by path, in a scratch directory.
fn c15_open(i: u64, cx: &mut Cx) -> R {
    use std::os::unix::ffi::OsStrExt;
    let os = |b: &[u8]| std::ffi::OsStr::from_bytes(b).to_os_string();
    let mut d = Dec(i);
    let (how, shp_state, dbf_state, nm) = (d.take(5), d.take(5), d.take(5), d.take(PATHS.len() as u64));
    let (dn, stem, ext, relative) = PATHS[nm as usize];
    let top = std::env::temp_dir().join(format!("mc-c15-{}-{}", std::process::id(), i));
    let dir = top.join(os(dn));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let with = |e: &str| { let mut f = os(stem); if !e.is_empty() { f.push("."); f.push(e); } dir.join(f) };
    let (sp, dp) = (with(ext), with("dbf"));
    let mut shp = shp_file(&[good_shape(0), good_shape(1)], Some([1.5, -2.5, 3.25, 8.]));
    let mut dbf = dbf_file(&attr_fields(), &[attr(0), attr(1)], true);
    let write = |p: &std::path::Path, b: &[u8]| std::fs::write(p, b).map_err(|e| e.to_string());
    // states: good, missing, invalid header, truncated header, empty
    // 1: a relative path; 2: the .shp is a link to a file elsewhere, which has another .dbf beside it
    let aside = top.join("aside");
    if relative == 2 {
        std::fs::create_dir_all(&aside).map_err(|e| e.to_string())?;
        write(&aside.join("other.dbf"), &dbf_file(&attr_fields(), &[attr(7), attr(8)], true))?;
        std::os::unix::fs::symlink(aside.join("other.shp"), &sp).map_err(|e| e.to_string())?;
    }
    match shp_state { 0 => write(&sp, &shp)?, 1 => {}, 2 => { shp[28] = 0; write(&sp, &shp)? } 3 => write(&sp, &shp[..50])?, _ => write(&sp, &[])? }
    match dbf_state { 0 => write(&dp, &dbf)?, 1 => {}, 2 => { dbf[2] = 13; write(&dp, &dbf)? } 3 => write(&dp, &dbf[..40])?, _ => write(&dp, &[])? }
    let path = if relative == 1 { let cwd = std::env::current_dir().map_err(|e| e.to_string())?; let mut p = std::path::PathBuf::new(); for _ in 1..cwd.components().count() { p.push(".."); } p.join(sp.strip_prefix("/").unwrap()) } else { sp.clone() };
    let enc = |how| -> encoding::EncodingRef { match how { 2 => encoding::all::ASCII, 3 => encoding::all::WINDOWS_1252, _ => utf8() } };
    let r = cx.call("opening by path", || {
        use topogeo::read::shapefile as s;
        let r = match how { 0 => s::open(&path, utf8()), 1 => s::open_utf8(&path), 2 => s::open_ascii(&path), 3 => s::open_windows1252(&path), _ => s::shapefile::open(&path, utf8()) };
        r.map_err(|e| e.to_string()).and_then(|r| {
            let b = r.bounding_box(); let b = [b.0, b.1, b.2, b.3];
            let f: Vec<String> = r.dbf_fields().iter().map(|f| f.name.clone()).collect();
            if b != [1.5, -2.5, 3.25, 8.] || f != ["name", "num"] { return Ok((vec![Err(format!("box {:?}, fields {:?}", b, f))], true)); }
            drain(r, 9)
        })
    });
    // each file on its own
    let each = cx.call("opening one file by path", || {
        use topogeo::read::shapefile::{shp, dbf};
        let a = shp::open(&path).ok().map(|r| r.map(|x| x.map(|x| ring_bits(&x.rings)).map_err(|e| e.to_string())).collect::<Vec<_>>());
        let q = path.with_extension("dbf");
        let b = if how == 2 { dbf::open_ascii(&q) } else { dbf::open(&q, enc(how)) };
        let b = b.ok().map(|r| { let f = r.get_field("name"); r.map(|x| x.map_err(|e| e.to_string()).and_then(|x| f.as_ref().ok_or("no field".to_string()).and_then(|f| f.read_string(&x).map_err(|e| e.to_string())))).collect::<Vec<_>>() });
        (a, b)
    });
    let _ = std::fs::remove_file(&sp);
    let _ = std::fs::remove_file(&dp);
    if relative == 2 { let _ = std::fs::remove_dir_all(&aside); }
    let _ = std::fs::remove_dir(&dir);
    let _ = std::fs::remove_dir(&top);
    let (r, each) = (r?, each?);
    let good = shp_state == 0 && dbf_state == 0;
    cx.state(&(how, shp_state, dbf_state, r.is_ok()));
    cx.validated += 1;
    let want = (if shp_state == 0 { Some(vec![Ok(bits(&good_shape(0))), Ok(bits(&good_shape(1)))]) } else { None }, if dbf_state == 0 { Some(vec![Ok("n0".to_string()), Ok("n1".to_string())]) } else { None });
    if each != want { return Err(format!("opening the files one by one (shp state {}, dbf state {}): {:?}", shp_state, dbf_state, each)); }
    match (good, r) {
        (true, Ok((v, true))) if v == vec![joined(0), joined(1)] => Ok(()),
        (false, Err(_)) => Ok(()),
        (g, r) => Err(format!("opening by path (shp state {}, dbf state {}): {:?}, expected {}", shp_state, dbf_state, r, if g { "both records" } else { "an error" })),
    }
}

fn c15_spaces(th: bool) -> Vec<Space> {
    let n: u64 = if th { 10 } else { 8 };
    let dec = move |i: u64| { let mut d = Dec(i); let nd = d.take(n + 1) as usize; let cs = d.take(n + 1) as usize; let cd = d.take(n + 1) as usize; let ns = d.take(n + 1) as usize; let m = d.0; (ns, m, nd, cs, cd) };
    vec![
        Space::new("joins", pow(n + 1, 4) << n, move |i, cx| { let (ns, m, nd, cs, cd) = dec(i); if m >> ns > 0 { return Ok(()); } let sh: Vec<bool> = (0..ns).map(|k| m >> k & 1 == 0).collect(); c15_case(&sh, nd, cs, cd, cx) },
            move |i| { let (ns, m, nd, cs, cd) = dec(i); format!("{} shapes (bad: {:b}), {} attribute records, broken off in shape {} / attribute record {} (0 = whole)", ns, m, nd, cs, cd) }),
        Space::new("long-joins", 40, |i, cx| { let n = 100 + 13 * (i % 20) as usize; let sh: Vec<bool> = (0..n).map(|k| i < 20 || (k * 7 + i as usize) % 5 != 0).collect(); c15_long(&sh, n, cx) }, |i| format!("long join {}", i)),
        Space::new("very-long-joins", LONG_JOINS.len() as u64 * 9, |i, cx| { let n = LONG_JOINS[(i / 9) as usize]; let nd = n + (i % 3) as usize - 1; let sh: Vec<bool> = (0..n).map(|k| match i / 3 % 3 { 0 => true, 1 => k % 255 != 3 && k + 1 != n, _ => k < n / 2 }).collect(); c15_long(&sh, nd, cx) },
            |i| format!("{} shapes, {} attribute records, bad shapes by rule {}", LONG_JOINS[(i / 9) as usize], LONG_JOINS[(i / 9) as usize] + (i % 3) as usize - 1, i / 3 % 3)),
        Space::new("open", 5 * 5 * 5 * PATHS.len() as u64, c15_open, |i| { let mut d = Dec(i); let (h, a, b, n) = (d.take(5), d.take(5), d.take(5), d.0 as usize); format!("open function {}, .shp state {}, .dbf state {}, directory {:?} name {:?} extension {:?}", h, a, b, String::from_utf8_lossy(PATHS[n].0), String::from_utf8_lossy(PATHS[n].1), PATHS[n].2) }),
    ]
}
const LONG_JOINS: &[usize] = &[1, 2, 15, 16, 17, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1024, 4096, 9999, 32768, 65535, 65536, 65537, 70001, 131073, 300001];
fn c15_long(shapes: &[bool], nd: usize, cx: &mut Cx) -> R {
    let contents: Vec<(u32, Vec<u8>)> = shapes.iter().enumerate().map(|(i, &ok)| { let mut c = polygon(&good_shape(i)); if !ok { c[0] = 3 } (i as u32 + 1, c) }).collect();
    let f = vec![field("name", 'C', 8), field("num", 'N', 7)];
    let shp = shp_raw(&contents, [0., 0., 1., 1.]);
    let dbf = dbf_file(&f, &(0..nd).map(|i| vec![padr(format!("n{}", i).as_bytes(), 8), padl(format!("{}", i * 3).as_bytes(), 7)]).collect::<Vec<_>>(), true);
    let (out, ended) = cx.call("reading a pair", || ShapefileReader::new(Cursor::new(shp), Cursor::new(dbf), utf8()).map_err(|e| e.to_string()).and_then(|r| drain(r, shapes.len().max(nd) + 3)))??;
    if !ended || out.len() != shapes.len().max(nd) { return Err(format!("{} items for {} shapes and {} attribute records", out.len(), shapes.len(), nd)); }
    for (i, o) in out.iter().enumerate() { let good = i < shapes.len() && i < nd && shapes[i]; if good != (*o == joined(i)) || (!good && o.is_ok()) { return Err(format!("item {} is {:?}", i, o)); } }
    cx.validated += 1;
    Ok(())
}

// ---- C16
fn c16_bases() -> (Vec<u8>, Vec<u8>) {
    let shp = shp_file(&[vec![ring(1, 4, 0)], vec![ring(2, 5, 0), ring(3, 4, 0)], vec![ring(4, 4, 0)]], Some([0., -500., 500., 0.]));
    let f = vec![field("name", 'C', 4), field("num", 'N', 3), field("id", '+', 4), field("flag", 'L', 1)];
    let dbf = dbf_file(&f, &(0..3).map(|i| vec![padr(format!("n{}", i).as_bytes(), 4), padl(format!("{}", i * 3).as_bytes(), 3), le(i * 77).to_vec(), b"T".to_vec()]).collect::<Vec<_>>(), true);
    (shp, dbf)
}
fn exhaust(shp: &[u8], dbf: &[u8], enc: encoding::EncodingRef, cx: &mut Cx) -> R {
    let bound = shp.len() / 8 + dbf.len() + 8;
    // the values and error texts collected here take their share of it, most of all in wide tables
    let mem = if dbf.len() < 10_000 { 64 } else { 256 } * (shp.len() + dbf.len()) as i64 + (1 << 20);
    let ((s, d, j), peak) = {
        let (r, peak) = metered(|| cx.call("reading arbitrary bytes", || {
            let s = read_shp(shp, bound + 1);
            let d = read_dbf(dbf, enc, bound + 1);
            let mut n = 0;
            let mut fin = true;
            let mut oks = 0;
            if let Ok(mut r) = ShapefileReader::new(shp, dbf, enc) {
                fin = false;
                let fs = r.dbf_fields();
                for _ in 0..=bound {
                    match r.next() { None => { fin = true; break; } Some(Ok(x)) => { oks += 1; let t = format!("{}", x); if t.is_empty() { n += 1000; } for f in fs.iter() { let _ = f.read_string(&x.data); } } Some(Err(e)) => { let _ = e.to_string(); } }
                    n += 1;
                }
            }
            let mut g = 0;
            if let Ok(mut r) = ShapefileReader::new(shp, dbf, enc) {
                for x in ShapefileGeoIterator::new(&mut r) { if g > bound { fin = false; break; } g += 1; if let Ok(x) = x { let _ = format!("{} {}", x, x.data); } }
            }
            (s, d, (n, fin, oks, g))
        }));
        (r?, peak)
    };
    if let Ok(s) = &s { if !s.ended { return Err(format!(".shp of {} bytes: the iterator goes on after {} items", shp.len(), s.items.len())); } }
    if let Ok(d) = &d { if !d.ended { return Err(format!(".dbf of {} bytes: the iterator goes on after {} items", dbf.len(), d.items.len())); } }
    if !j.1 { return Err(format!("joined iteration over {} + {} bytes goes on after {} items", shp.len(), dbf.len(), j.0)); }
    if peak > mem { return Err(format!("{} bytes of memory for {} + {} bytes of files", peak, shp.len(), dbf.len())); }
    cx.note(if s.is_err() || d.is_err() { "rejected on opening" } else if j.2 > 0 { "some records readable" } else { "no record readable" });
    cx.state(&(s, d, j));
    cx.validated += 1;
    Ok(())
}
const EDGES: [u32; 14] = [0, 1, 2, 4, 5, 8, 22, 0xff, 0xffff, 0x0010_0000, 0x1000_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff];

fn c16_spaces(th: bool) -> Vec<Space> {
    let (shp, dbf) = c16_bases();
    let base = std::sync::Arc::new((shp.clone(), dbf.clone()));
    let (ls, ld) = (shp.len() as u64, dbf.len() as u64);
    let mut v = vec![];
    let b = base.clone();
    v.push(Space::new("truncations", (ls + 1) * (ld + 1), move |i, cx| exhaust(&b.0[..(i % (ls + 1)) as usize], &b.1[..(i / (ls + 1)) as usize], utf8(), cx), move |i| format!(".shp cut to {} bytes, .dbf to {}", i % (ls + 1), i / (ls + 1))));
    let b = base.clone();
    v.push(Space::new("one-byte", (ls + ld) * 256, move |i, cx| {
        let (p, x) = ((i / 256) as usize, i as u8);
        let (mut s, mut d) = (b.0.clone(), b.1.clone());
        if p < s.len() { s[p] = x } else { let k = p - s.len(); d[k] = x }
        exhaust(&s, &d, utf8(), cx)
    }, move |i| format!("byte {} of .shp+.dbf set to {}", i / 256, i % 256)));
    // boundary values in the length and count fields: file length, record length, parts, points, first part indices
    let rec2 = 100 + 8 + 44 + 4 + 64; // start of the second record
    let fields = |th: bool| -> Vec<(usize, bool)> { let mut f = vec![(24, true), (rec2 + 4, true), (rec2 + 8 + 36, false), (rec2 + 8 + 40, false)]; f.push((rec2 + 8 + 44, false)); if th { f.push((rec2 + 8 + 48, false)); } f }(th);
    let (b, f2) = (base.clone(), fields.clone());
    let ne = EDGES.len() as u64 + 1;
    v.push(Space::new("shp-lengths", pow(ne, fields.len() as u32), move |i, cx| {
        let mut d = Dec(i);
        let mut s = b.0.clone();
        for &(at, big) in &f2 { let k = d.take(ne); if k > 0 { let x = EDGES[k as usize - 1]; s[at..at + 4].copy_from_slice(&if big { be(x) } else { le(x) }); } }
        exhaust(&s, &b.1, utf8(), cx)
    }, move |i| { let mut d = Dec(i); format!("fields {:?} set to edge values {:?}", fields, (0..fields.len()).map(|_| d.take(ne)).collect::<Vec<_>>()) }));
    // tables as wide as the format allows, whole and cut short, with lengths that do not add up
    const WIDE: &[(usize, u8)] = &[(1, 255), (2, 1), (100, 255), (257, 254), (257, 255), (258, 255), (1000, 65), (1000, 1), (2046, 32), (2046, 33), (2046, 0), (2046, 1), (2046, 255)];
    let b = base.clone();
    v.push(Space::new("wide-tables", WIDE.len() as u64 * 5 * 4 * 4, move |i, cx| {
        let mut d = Dec(i);
        let ((n, l), ty, cut, rl) = (*d.pick(WIDE), d.take(5), d.take(4), d.take(4));
        let f: Vec<Field> = (0..n).map(|k| field(&format!("f{}", k), ['C', 'N', '+', '@', [b'C', b'N', b'L', b'+'][k % 4] as char][ty as usize], l)).collect();
        let recs: Vec<Vec<Vec<u8>>> = (0..3).map(|r| f.iter().enumerate().map(|(k, f)| vec![b"1 a\xff\0"[(k + r) % 5]; f.len as usize]).collect()).collect();
        let mut f = dbf_file(&f, &recs, true);
        match rl { 0 => {} 1 => f[10..12].copy_from_slice(&[0xff, 0xff]), 2 => f[10..12].copy_from_slice(&[1, 0]), _ => f[4..8].copy_from_slice(&le(0xffff_ffff)) }
        let l = f.len();
        match cut { 0 => {} 1 => f.truncate(l / 2), 2 => f.truncate(l - 2), _ => f.truncate(33 + 32 * n + 1) }
        exhaust(&b.0, &f, utf8(), cx)
    }, |i| { let mut d = Dec(i); format!("(fields, length) {:?}, types {}, cut {}, record length {}", d.pick(WIDE), d.take(5), d.take(4), d.take(4)) }));
    let b = base.clone();
    let ns: &[u32] = &[0, 1, 2, 3, 4, 0xffff, 0x7fff_ffff, 0xffff_ffff];
    let nh: &[u16] = &[0, 1, 31, 32, 33, 64, 65, 97, 129, 160, 161, 162, 193, 32767, 65535];
    let nr: &[u16] = &[0, 1, 2, 4, 5, 11, 12, 13, 14, 100, 32768, 65535];
    let fl: &[u8] = &[0, 1, 3, 4, 5, 12, 254, 255];
    let ty: &[u8] = b"CN+|LDF@Oz\0";
    let dims = [ns.len() as u64, nh.len() as u64, nr.len() as u64, fl.len() as u64, ty.len() as u64];
    v.push(Space::new("dbf-lengths", dims.iter().product(), move |i, cx| {
        let mut d = Dec(i);
        let mut f = b.1.clone();
        f[4..8].copy_from_slice(&le(*d.pick(ns)));
        f[8..10].copy_from_slice(&d.pick(nh).to_le_bytes());
        f[10..12].copy_from_slice(&d.pick(nr).to_le_bytes());
        f[64 + 16] = *d.pick(fl);
        f[64 + 11] = *d.pick(ty);
        exhaust(&b.0, &f, utf8(), cx)
    }, |i| format!("dbf header combination {}", i)));
    // coordinates and bounding boxes with exceptional values
    let sp: &[u64] = &[0, 0x8000_0000_0000_0000, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x7fef_ffff_ffff_ffff, 1, 0x3ff0_0000_0000_0000, 0xc07f_4000_0000_0000];
    let nsp = sp.len() as u64;
    let b = base.clone();
    v.push(Space::new("exceptional-numbers", pow(nsp, 5), move |i, cx| {
        let mut d = Dec(i);
        let mut s = b.0.clone();
        for at in [36, 44, 52, 60, 100 + 8 + 48] { let x = *d.pick(sp); s[at..at + 8].copy_from_slice(&x.to_le_bytes()); }
        exhaust(&s, &b.1, utf8(), cx)
    }, |i| format!("exceptional numbers {}", i)));
    // tiny files over an alphabet of telling bytes, behind valid headers
    let al: &[u8] = &[0, 1, 5, 0x20, 0xff];
    let k: u32 = if th { 11 } else { 9 };
    let b = base.clone();
    v.push(Space::new("short-bodies", pow(al.len() as u64, k), move |i, cx| {
        let mut d = Dec(i);
        let body: Vec<u8> = (0..k).map(|_| *d.pick(al)).collect();
        let mut s = b.0[..100].to_vec(); s.extend([0, 0, 0]); s.extend(&body); s.extend(&b.0[100..160]);
        let mut f = b.1[..32].to_vec(); f.extend(&body); f.extend(&b.1[40..]);
        exhaust(&s, &f, encoding::all::ASCII, cx)
    }, |i| format!("short body {}", i)));
    {
        // one corrupted byte (boundary values) and a truncation; and two corrupted bytes
        let b = base.clone();
        let vals: &[u8] = if th { &[0, 1, 2, 4, 5, 8, 0x10, 0x20, 0x7f, 0x80, 0xfe, 0xff] } else { &[0, 1, 5, 0x7f, 0x80, 0xff] };
        let nv = vals.len() as u64;
        v.push(Space::new("two-bytes-shp", (ls * nv) * (ls * nv), move |i, cx| {
            let (a, c) = (i % (ls * nv), i / (ls * nv));
            if a > c { return Ok(()); }
            let mut s = b.0.clone();
            s[(a / nv) as usize] = vals[(a % nv) as usize]; s[(c / nv) as usize] = vals[(c % nv) as usize];
            exhaust(&s, &b.1, utf8(), cx)
        }, move |i| format!("two bytes of .shp: {} and {}", i % (ls * nv), i / (ls * nv))));
        let b = base.clone();
        v.push(Space::new("two-bytes-dbf", (ld * nv) * (ld * nv), move |i, cx| {
            let (a, c) = (i % (ld * nv), i / (ld * nv));
            if a > c { return Ok(()); }
            let mut s = b.1.clone();
            s[(a / nv) as usize] = vals[(a % nv) as usize]; s[(c / nv) as usize] = vals[(c % nv) as usize];
            exhaust(&b.0, &s, utf8(), cx)
        }, move |i| format!("two bytes of .dbf: {} and {}", i % (ld * nv), i / (ld * nv))));
        let b = base.clone();
        v.push(Space::new("byte-and-truncation", (ls + ld) * nv * (ls + ld), move |i, cx| {
            let mut d = Dec(i);
            let (p, x, cut) = (d.take(ls + ld) as usize, *d.pick(vals), d.0 as usize);
            let (mut s, mut f) = (b.0.clone(), b.1.clone());
            let n = s.len();
            if p < n { s[p] = x } else { f[p - n] = x }
            if cut < n { s.truncate(cut) } else { f.truncate(cut - n) }
            exhaust(&s, &f, utf8(), cx)
        }, |i| format!("byte and truncation {}", i)));
    }
    v
}

// ---- C17
#[derive(Clone, Copy, Debug, PartialEq)]
enum Which { Shp, Dbf }
fn c17_run(which: Which, src: Source, cx: &mut Cx) -> Result<Result<(Vec<Result<u64, ()>>, bool, u64), ()>, String> {
    Ok(match which {
        Which::Shp => cx.call("reading", || read_shp(src, 20))?.map(|o| (o.items.iter().map(|x| x.as_ref().map(hash).map_err(|_| ())).collect(), o.ended, hash(&(o.n_bytes, o.bbox)))).map_err(|_| ()),
        Which::Dbf => cx.call("reading", || read_dbf(src, utf8(), 20))?.map(|o| (o.items.iter().map(|x| x.as_ref().map(hash).map_err(|_| ())).collect(), o.ended, hash(&o.names))).map_err(|_| ()),
    })
}
fn c17_case(which: Which, src: Source, cx: &mut Cx) -> R {
    let data = src.data.clone();
    let whole = c17_run(which, Source::new(&data), cx)?.map_err(|_| "the intact file was rejected")?;
    // ends of header and records, from the writer's layout
    let ends: Vec<usize> = match which { Which::Shp => { let mut e = vec![100]; while *e.last().unwrap() < data.len() { let p = *e.last().unwrap(); let l = u32::from_be_bytes([data[p + 4], data[p + 5], data[p + 6], data[p + 7]]) as usize; e.push(p + 8 + 2 * l); } e }
        Which::Dbf => { let h = u16::from_le_bytes([data[8], data[9]]) as usize; let l = u16::from_le_bytes([data[10], data[11]]) as usize; let n = data[4] as usize; (0..=n).map(|k| h + k * l).collect() } };
    let n = ends.len() - 1;
    if whole.0.len() != n || !whole.1 || whole.0.iter().any(|x| x.is_err()) { return Err(format!("the intact file read as {:?}", whole)); }
    let fail = src.fail_at.unwrap_or(usize::MAX).min(src.data.len());
    let fail = if src.fail_at.is_none() { usize::MAX } else { fail };
    let transient = src.fail_times < usize::MAX;
    let got = c17_run(which, src.clone(), cx)?;
    cx.state(&(which == Which::Shp, &got, fail.min(9999)));
    cx.validated += 1;
    if fail >= *ends.last().unwrap() {
        cx.note("delivered whole");
        return if got == Ok(whole.clone()) { Ok(()) } else { Err(format!("delivered in pieces the file read as {:?} instead of {:?}", got, whole)) };
    }
    cx.note("failed or ended early");
    if fail < ends[0] { return if got.is_err() { Ok(()) } else { Err("opening succeeded although the source failed in the header".into()) }; }
    let complete = ends[1..].iter().filter(|e| **e <= fail).count();
    let g = got.map_err(|_| "opening failed although the header was delivered")?;
    if g.2 != whole.2 { return Err("the header reads differently".into()); }
    if !g.1 { return Err("the iterator does not end after the source failed".into()); }
    if g.0.len() <= complete || g.0[..complete] != whole.0[..complete] { return Err(format!("{} complete records were delivered before byte {}, but the items are {:?}", complete, fail, g.0)); }
    if g.0[complete].is_ok() { return Err(format!("record {} was made up although the source failed at byte {}", complete, fail)); }
    for x in &g.0[complete + 1..] { if x.is_ok() && (!transient || !whole.0.contains(x)) { return Err(format!("a record was made up after the source failed at byte {}", fail)); } }
    Ok(())
}
fn c17_space(which: Which, name: &str, size: u64, f: impl Fn(&[u8], u64) -> Option<Source> + Sync + Send + Clone + 'static) -> Space {
    let (s, d) = c16_bases();
    c17_space_of(which, if which == Which::Shp { s } else { d }, name, size, f)
}
/// Six records of some 40 kB each.
fn c17_large(which: Which) -> Vec<u8> {
    let n = 2500;
    match which {
        Which::Shp => shp_file(&(0..6).map(|k| { let mut r: Vec<F> = (0..n + k).map(|j| ((k * 10000 + j) as f64 * 0.5, (j * j % 977) as f64)).collect(); r.push(r[0]); vec![r] }).collect::<Vec<_>>(), Some([0., 0., 30000., 977.])),
        Which::Dbf => { let f: Vec<Field> = (0..157).map(|k| field(&format!("f{}", k), 'C', 254)).collect();
            dbf_file(&f, &(0..6).map(|r| (0..157).map(|k| (0..254).map(|j| b'a' + ((r * 31 + k * 7 + j * (k % 5 + 1)) % 26) as u8).collect()).collect()).collect::<Vec<_>>(), true) }
    }
}
/// The combined reader on two disturbed sources.
fn c17_join(bases: &(Vec<u8>, Vec<u8>), s: Source, d: Source, cx: &mut Cx) -> R {
    let ends_s: Vec<usize> = { let mut e = vec![100]; while *e.last().unwrap() < bases.0.len() { let p = *e.last().unwrap(); let l = u32::from_be_bytes([bases.0[p + 4], bases.0[p + 5], bases.0[p + 6], bases.0[p + 7]]) as usize; e.push(p + 8 + 2 * l); } e };
    let n = ends_s.len() - 1;
    let ends_d: Vec<usize> = (0..=n).map(|k| 33 + 64 + 8 * k).collect();
    let (fs, fd) = (s.fail_at.unwrap_or(usize::MAX), d.fail_at.unwrap_or(usize::MAX));
    let got = cx.call("reading a pair", || ShapefileReader::new(s, d, utf8()).map_err(|e| e.to_string()).and_then(|r| drain(r, 40)))?;
    cx.state(&(&got, fs, fd));
    cx.validated += 1;
    if fs < 100 || fd < ends_d[0] { cx.note("pair: rejected on opening"); return if got.is_err() { Ok(()) } else { Err("opening succeeded although a source failed in the header".into()) }; }
    let (out, ended) = got.map_err(|e| format!("opening failed although both headers were delivered: {}", e))?;
    if !ended { return Err("the iterator does not end".into()); }
    let complete = |f: usize, e: &[usize]| e[1..].iter().filter(|x| **x <= f).count();
    let m = complete(fs, &ends_s).min(complete(fd, &ends_d));
    for i in 0..m { if out.get(i) != Some(&joined(i)) { return Err(format!("item {} is {:?} although both its records were delivered", i, out.get(i))); } }
    if m == n { cx.note("pair: delivered whole"); return if out.len() == n { Ok(()) } else { Err(format!("{} items for {} pairs", out.len(), n)) }; }
    cx.note("pair: failed");
    match out.get(m) { Some(Err(_)) => {} x => return Err(format!("item {} is {:?} although a source failed there", m, x)) }
    for x in &out[m..] { if x.is_ok() && !(0..n).any(|k| *x == joined(k)) { return Err(format!("a pair was made up: {:?}", x)); } }
    Ok(())
}
fn c17_pairs(th: bool) -> Vec<Space> {
    use std::io::ErrorKind as K;
    let recs: Vec<_> = (0..3).map(good_shape).collect();
    let bases = std::sync::Arc::new((shp_file(&recs, None), dbf_file(&attr_fields(), &(0..3).map(attr).collect::<Vec<_>>(), true)));
    let (ns, nd) = (bases.0.len() as u64, bases.1.len() as u64);
    let chunks: &'static [usize] = if th { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 34, 44, 48, 63, 64, 65, 99, 100, 101, 108, 128] } else { &[0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 31, 32, 33, 64, 100, 101] };
    let mk = |name: &str, size: u64, f: std::sync::Arc<dyn Fn(&(Vec<u8>, Vec<u8>), u64) -> (Source, Source) + Sync + Send>| {
        let (b1, b2, f2) = (bases.clone(), bases.clone(), f.clone());
        Space::new(format!("pair-{}", name), size, move |i, cx| { let (s, d) = f(&b1, i); c17_join(&b1, s, d, cx) },
            move |i| { let (s, d) = f2(&b2, i); let t = |s: Source| (s.chunk, s.splits, s.interrupt_at, s.interrupts, s.fail_at, s.fail_times, s.kind); format!("{:?} / {:?}", t(s), t(d)) })
    };
    vec![
        mk("chunks", ns * nd, std::sync::Arc::new(move |b, i| { let mut s = Source::new(&b.0); let mut d = Source::new(&b.1); s.chunk = (i % ns) as usize; d.chunk = (i / ns) as usize; (s, d) })),
        mk("splits", ns * nd, std::sync::Arc::new(move |b, i| { let mut s = Source::new(&b.0); let mut d = Source::new(&b.1); s.splits = vec![(i % ns) as usize]; d.splits = vec![(i / ns) as usize]; (s, d) })),
        mk("interruptions", ns * nd, std::sync::Arc::new(move |b, i| { let mut s = Source::new(&b.0); let mut d = Source::new(&b.1); s.interrupt_at = vec![(i % ns) as usize]; d.interrupt_at = vec![(i / ns) as usize]; (s, d) })),
        mk("failures", (ns + 2) * (nd + 2) * chunks.len() as u64 * 2, std::sync::Arc::new(move |b, i| {
            let mut e = Dec(i);
            let mut s = Source::new(&b.0); let mut d = Source::new(&b.1);
            let (x, y) = (e.take(ns + 2), e.take(nd + 2));
            if x <= ns { s.fail_at = Some(x as usize); } if y <= nd { d.fail_at = Some(y as usize); }
            s.chunk = *e.pick(chunks); d.chunk = s.chunk;
            if e.0 == 1 { s.kind = K::UnexpectedEof; d.kind = K::UnexpectedEof; }
            (s, d) })),
        mk("transient", (ns + 2) * (nd + 2) * 4, std::sync::Arc::new(move |b, i| {
            let mut e = Dec(i);
            let mut s = Source::new(&b.0); let mut d = Source::new(&b.1);
            let (x, y) = (e.take(ns + 2), e.take(nd + 2));
            if x <= ns { s.fail_at = Some(x as usize); } if y <= nd { d.fail_at = Some(y as usize); }
            s.fail_times = e.take(2) as usize + 1; d.fail_times = e.take(2) as usize + 1;
            (s, d) })),
    ]
}
fn c17_space_of(which: Which, data: Vec<u8>, name: &str, size: u64, f: impl Fn(&[u8], u64) -> Option<Source> + Sync + Send + Clone + 'static) -> Space {
    let (d2, f2) = (data.clone(), f.clone());
    Space::new(format!("{:?}-{}", which, name), size, move |i, cx| match f(&data, i) { None => Ok(()), Some(s) => c17_case(which, s, cx) },
        move |i| format!("{:?}", f2(&d2, i).map(|s| (s.chunk, s.splits, s.interrupt_at, s.interrupts, s.fail_at, s.fail_times, s.kind))))
}
fn c17_spaces(th: bool) -> Vec<Space> {
    use std::io::ErrorKind as K;
    let mut v = vec![];
    for w in [Which::Shp, Which::Dbf] {
        let n = { let (s, d) = c16_bases(); if w == Which::Shp { s.len() } else { d.len() } } as u64;
        v.push(c17_space(w, "chunk-sizes", n + 1, |d, i| { let mut s = Source::new(d); s.chunk = i as usize; Some(s) }));
        v.push(c17_space(w, "two-splits", n * n, move |d, i| { let (a, b) = (i % n, i / n); if a > b { return None; } let mut s = Source::new(d); s.splits = vec![a as usize, b as usize]; Some(s) }));
        v.push(c17_space(w, "interruptions", n * n * 3, move |d, i| { let mut e = Dec(i); let (a, b, k) = (e.take(n) as usize, e.take(n) as usize, e.take(3) as usize + 1); if a > b { return None; } let mut s = Source::new(d); s.interrupt_at = vec![a, b]; s.interrupts = k; Some(s) }));
        v.push(c17_space(w, "interrupted-everywhere", 9 * 3, move |d, i| { let mut s = Source::new(d); s.chunk = (i % 9) as usize + 1; s.interrupt_at = (0..d.len()).step_by((i % 9) as usize + 1).collect(); s.interrupts = (i / 9) as usize + 1; Some(s) }));
        v.push(c17_space(w, "failure-with-chunks", (n + 1) * 12 * 5, move |d, i| { let mut e = Dec(i); let mut s = Source::new(d); s.fail_at = Some(e.take(n + 1) as usize); s.chunk = [0usize, 1, 2, 3, 5, 7, 8, 16, 31, 32, 64, 100][e.take(12) as usize]; s.kind = [K::Other, K::WouldBlock, K::UnexpectedEof, K::TimedOut, K::BrokenPipe][e.take(5) as usize]; Some(s) }));
        v.push(c17_space(w, "transient-failure", (n + 1) * 6 * 3, move |d, i| { let mut e = Dec(i); let mut s = Source::new(d); s.fail_at = Some(e.take(n + 1) as usize); s.chunk = [0usize, 1, 3, 8, 13, 100][e.take(6) as usize]; s.fail_times = e.take(3) as usize + 1; Some(s) }));
        v.push(c17_space(w, "end-of-data", (n + 1) * 12, move |d, i| { let mut e = Dec(i); let k = e.take(n + 1) as usize; let mut s = Source::new(d); s.kind = K::UnexpectedEof; s.fail_at = Some(k); s.chunk = [0usize, 1, 2, 3, 5, 7, 8, 16, 31, 32, 64, 100][e.take(12) as usize]; Some(s) }));
        v.push(c17_space(w, "failure-after-interruption", n * n, move |d, i| { let (a, b) = (i % n, i / n); if a > b { return None; } let mut s = Source::new(d); s.interrupt_at = vec![a as usize]; s.fail_at = Some(b as usize); Some(s) }));
        if th {
            v.push(c17_space(w, "three-splits", n * n * n, move |d, i| { let mut e = Dec(i); let (a, b, c) = (e.take(n), e.take(n), e.take(n)); if a > b || b > c { return None; } let mut s = Source::new(d); s.splits = vec![a as usize, b as usize, c as usize]; Some(s) }));
            v.push(c17_space(w, "split-and-failure", n * n * n, move |d, i| { let mut e = Dec(i); let (a, b, c) = (e.take(n), e.take(n), e.take(n)); if a > b || b > c { return None; } let mut s = Source::new(d); s.splits = vec![a as usize, b as usize]; s.fail_at = Some(c as usize); Some(s) }));
        }
    }
    for w in [Which::Shp, Which::Dbf] {
        let data = c17_large(w);
        const CH: [usize; 22] = [1, 2, 7, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 0];
        // positions around every multiple of 512 (thorough) or 4096, and around every record
        let step = if th { 128 } else { 512 };
        let mut at: Vec<usize> = (0..=data.len()).filter(|p| (p + 1) % step <= 2).collect();
        let rl = data.len() / 6;
        at.extend((0..6).flat_map(|k| (rl * k..(rl * k + 200).min(data.len())).step_by(if th { 1 } else { 3 })));
        let n = at.len() as u64;
        let (at1, at2, at3) = (at.clone(), at.clone(), at);
        v.push(c17_space_of(w, data.clone(), "large-chunks", 22, |d, i| { let mut s = Source::new(d); s.chunk = CH[i as usize]; Some(s) }));
        v.push(c17_space_of(w, data.clone(), "large-splits", n, move |d, i| { let mut s = Source::new(d); s.splits = vec![at1[i as usize]]; Some(s) }));
        v.push(c17_space_of(w, data.clone(), "large-failures", n * 4, move |d, i| { let mut s = Source::new(d); s.fail_at = Some(at2[(i % n) as usize]); s.chunk = [0, 1000, 4096, 8192][(i / n) as usize]; Some(s) }));
        v.push(c17_space_of(w, data, "large-interruptions", n, move |d, i| { let mut s = Source::new(d); s.interrupt_at = vec![at3[i as usize]]; s.chunk = 8192; Some(s) }));
    }
    v.extend(c17_pairs(th));
    v.push(truncated("Shp", Which::Shp));
    v.push(truncated("Dbf", Which::Dbf));
    v
}
/// Plain end of data (Ok(0)) at every byte.
fn truncated(n: &str, w: Which) -> Space {
    let (s, d) = c16_bases();
    let data = if w == Which::Shp { s } else { d };
    let k = data.len() as u64;
    Space::new(format!("{}-truncated", n), k + 1, move |i, cx| {
        // a source that merely ends looks like one that fails for good
        let whole = c17_run(w, Source::new(&data), cx)?;
        let got = c17_run(w, Source::new(&data[..i as usize]), cx)?;
        let mut f = Source::new(&data); f.fail_at = Some(i as usize); f.kind = std::io::ErrorKind::UnexpectedEof;
        let fail = c17_run(w, f, cx)?;
        cx.validated += 1;
        if got != fail { return Err(format!("ended at byte {}: {:?}; failed there: {:?}; whole: {:?}", i, got, fail, whole)); }
        Ok(())
    }, |i| format!("end of data at byte {}", i))
}

// ---- C18
struct BBox { x0: i64, y0: i64, x1: i64, y1: i64, e: i32 }
fn f(n: i64, e: i32) -> f64 { let v = n as f64; assert_eq!(v as i64, n); v * (2f64).powi(e / 2) * (2f64).powi(e - e / 2) }
fn bboxes() -> Vec<BBox> {
    let b = |x0, y0, x1, y1, e| BBox { x0, y0, x1, y1, e };
    let d = 1i64 << 43;
    vec![
        b(0, 0, 1 << 32, 1 << 32, -32), b(0, 0, u32::MAX as i64, u32::MAX as i64, 0), b(0, 0, 3, 7, 0), b(-180 * d, -90 * d, 180 * d, 90 * d, -43),
        b(-123 * d - 77777, 45 * d + 12345, -122 * d + 999, 49 * d, -43), b(500_000 << 30, 4_100_000 << 29, 800_001 << 30, 4_700_123 << 29, -30),
        b(-10, -10, -3, -1, -20), b(1, 1, 2, 2, 40), b(0, 0, 1 << 51, 3, -51), b(-(1 << 50), -(1 << 50), 1 << 50, 1 << 50, -40), b(5, -9, 6, 1000, 0), b(0, 0, 10, 10, -1060), b(-7, -7, 1 << 45, 1 << 44, 900),
        // far from the origin
        b(1 << 52, 1 << 52, (1 << 52) + 1000, (1 << 52) + 77, 0), b(-(1 << 52) - 3, (1 << 52) + 9, -(1 << 52) + 70_000, (1 << 52) + (1 << 33), -20), b((1 << 51) + 1, -(1 << 51) - (1 << 40), (1 << 51) + (1 << 34), -(1 << 51), -700),
        b(7 << 49, 5 << 50, (7 << 49) + 3, (5 << 50) + 2, 600),
    ]
}
/// Integer sample positions between lo and hi.
fn samples(lo: i64, hi: i64, n: i64) -> Vec<i64> {
    let w = (hi - lo) as i128;
    let mut v: Vec<i64> = vec![lo, hi];
    for k in 0..=n { let c = (lo as i128 + w * k as i128 / n as i128) as i64; for d in [-2, -1, 0, 1, 2] { v.push(c + d); } }
    // just around the quantization steps
    for k in [1i128, 2, 3, 1000, 65535, 65536, 1 << 31, (1 << 31) + 1, (1 << 32) - 3, (1 << 32) - 2] { let c = lo as i128 + w * k / u32::MAX as i128; for d in [-1, 0, 1, 2] { v.push((c + d) as i64); } }
    v.retain(|x| *x >= lo && *x <= hi);
    v.sort_unstable(); v.dedup();
    v
}
fn convert(shp: Vec<u8>, n: usize) -> Result<Vec<(String, Vec<Vec<(u32, u32)>>, Vec<Vec<(u32, u32)>>)>, String> {
    let dbf = dbf_file(&[field("name", 'C', 4)], &(0..n).map(|i| vec![padr(format!("n{}", i).as_bytes(), 4)]).collect::<Vec<_>>(), true);
    let mut r = ShapefileReader::new(Cursor::new(shp), Cursor::new(dbf), utf8()).map_err(|e| e.to_string())?;
    let name = r.get_field("name").ok_or("no field")?;
    let pts = |rs: &[Ring]| rs.iter().map(|r| r.points().iter().map(|p| (p.0, p.1)).collect()).collect();
    let mut out = vec![];
    for x in ShapefileGeoIterator::new(&mut r) { let x = x.map_err(|e| e.to_string())?; out.push((name.read_string(&x.data).map_err(|e| e.to_string())?, pts(&x.outer_rings), pts(&x.inner_rings))); if out.len() > n + 3 { break; } }
    Ok(out)
}
fn check_q(lo: i64, hi: i64, down: bool, n: i64, q: u32) -> Result<(), String> {
    let m = u32::MAX as i128;
    let w = (hi - lo) as i128;
    let k = if down { (hi - n) as i128 } else { (n - lo) as i128 };
    let exact_num = k * m; // exact position = exact_num / w
    if k == 0 && q != 0 { return Err(format!("the near edge goes to {}", q)); }
    if k == w && q != u32::MAX { return Err(format!("the far edge goes to {}", q)); }
    // |q - exact| <= 1 (+ 2^-10 for the arithmetic)
    let diff = (q as i128 * w - exact_num).abs();
    if diff * 1024 > w * 1025 { return Err(format!("position {} of {} goes to {}, exactly {}", k, w, q, exact_num as f64 / w as f64)); }
    Ok(())
}
fn c18_quantize(bi: usize, n: i64, variant: u64, cx: &mut Cx) -> R {
    let b = &bboxes()[bi];
    let (xs, ys) = (samples(b.x0, b.x1, n), samples(b.y0, b.y1, n));
    let k = xs.len().max(ys.len());
    // a ring through all sample coordinates; variant shifts how x and y are paired
    let mut ps: Vec<(i64, i64)> = (0..k.max(4)).map(|i| (xs[i % xs.len()], ys[(i * (variant as usize * 2 + 1) + variant as usize * 17) % ys.len()])).collect();
    ps.push(ps[0]);
    let half = ps.len() / 2;
    let ring1: Vec<F> = ps.iter().map(|p| (f(p.0, b.e), f(p.1, b.e))).collect();
    let mut ps2: Vec<(i64, i64)> = ps[half..].iter().rev().cloned().collect(); while ps2.len() < 4 { ps2.push(ps2[0]); } ps2.push(ps2[0]);
    let ring2: Vec<F> = ps2.iter().map(|p| (f(p.0, b.e), f(p.1, b.e))).collect();
    let file = shp_file(&[vec![ring1], vec![ring2]], Some([f(b.x0, b.e), f(b.y0, b.e), f(b.x1, b.e), f(b.y1, b.e)]));
    let out = cx.call("converting", || convert(file, 2))??;
    if out.len() != 2 || out[0].0 != "n0" || out[1].0 != "n1" { return Err(format!("{} regions with data {:?}", out.len(), out.iter().map(|x| &x.0).collect::<Vec<_>>())); }
    let mut seen: std::collections::BTreeMap<(i64, i64), (u32, u32)> = Default::default();
    for (o, src) in out.iter().zip([&ps, &ps2]) {
        let rings: Vec<_> = o.1.iter().chain(&o.2).collect();
        if rings.len() != 1 || rings[0].len() != src.len() { return Err(format!("{} rings with {:?} points, expected one of {}", rings.len(), rings.iter().map(|r| r.len()).collect::<Vec<_>>(), src.len())); }
        for (p, q) in src.iter().zip(rings[0]) {
            check_q(b.x0, b.x1, false, p.0, q.0).map_err(|e| format!("x of {:?} * 2^{} in {}..{}: {}", p, b.e, b.x0, b.x1, e))?;
            check_q(b.y0, b.y1, true, p.1, q.1).map_err(|e| format!("y of {:?} * 2^{} in {}..{}: {}", p, b.e, b.y0, b.y1, e))?;
            if *seen.entry(*p).or_insert(*q) != *q { return Err(format!("{:?} goes to {:?} and to {:?}", p, q, seen[p])); }
        }
    }
    // order along each axis
    let mut v: Vec<(i64, u32)> = seen.iter().map(|(p, q)| (p.0, q.0)).collect(); v.sort_unstable();
    for w in v.windows(2) { if w[0].1 > w[1].1 || (w[0].0 == w[1].0 && w[0].1 != w[1].1) { return Err(format!("x order reversed: {:?}", w)); } }
    let mut v: Vec<(i64, u32)> = seen.iter().map(|(p, q)| (p.1, q.1)).collect(); v.sort_unstable();
    for w in v.windows(2) { if w[0].1 < w[1].1 || (w[0].0 == w[1].0 && w[0].1 != w[1].1) { return Err(format!("y order reversed: {:?}", w)); } }
    cx.state(&seen);
    cx.validated += seen.len() as u64;
    Ok(())
}
/// Rings of a record from a list, each clockwise or not (on the map, y up), in every order.
fn c18_orient(kinds: &[u64], variant: u64, cx: &mut Cx) -> R {
    let mut recs: Vec<Vec<Vec<F>>> = vec![vec![]];
    let mut want: Vec<(Vec<usize>, Vec<usize>)> = vec![(vec![], vec![])];
    let mut all: Vec<Vec<F>> = vec![];
    for (i, &k) in kinds.iter().enumerate() {
        let (o, s) = (i as f64 * 20.0 - 37.0, 1.0 + (k / 4) as f64 * 5.5);
        // clockwise with y up
        let mut r: Vec<F> = vec![(o, o), (o - 0.5, o + s), (o + s, o + s), (o + s * 1.5, o + s / 4.0)];
        r.rotate_left((k / 2 % 2) as usize * 2 + variant as usize % 2);
        if k % 2 == 1 { r.reverse(); }
        r.push(r[0]);
        let split = variant >> 1 & 1 == 1 && i == 2;
        if split { recs.push(vec![]); want.push((vec![], vec![])); }
        let w = want.last_mut().unwrap();
        if k % 2 == 0 { w.0.push(i) } else { w.1.push(i) }
        all.push(r.clone());
        recs.last_mut().unwrap().push(r);
    }
    let bb = bbox_of(recs.iter().flatten().flatten());
    let file = shp_file(&recs, Some(bb));
    let n = recs.len();
    let out = cx.call("converting", || convert(file, n))??;
    if out.len() != n { return Err(format!("{} regions for {} records", out.len(), n)); }
    for (k, (o, w)) in out.iter().zip(&want).enumerate() {
        if o.0 != format!("n{}", k) { return Err(format!("region {} has data {}", k, o.0)); }
        for (what, got, idx) in [("outer", &o.1, &w.0), ("inner", &o.2, &w.1)] {
            if got.len() != idx.len() { return Err(format!("record {} with ring directions {:?} has {} {} rings, expected {}", k, kinds, got.len(), what, idx.len())); }
            for (g, &i) in got.iter().zip(idx) {
                let ok = g.len() == all[i].len() && g.iter().zip(&all[i]).all(|(q, p)| {
                    let (x, y) = ((p.0 - bb[0]) / (bb[2] - bb[0]) * 4294967295.0, (bb[3] - p.1) / (bb[3] - bb[1]) * 4294967295.0);
                    (q.0 as f64 - x).abs() <= 1.001 && (q.1 as f64 - y).abs() <= 1.001 });
                if !ok { return Err(format!("record {} {} ring is {:?}, expected {:?} quantized", k, what, g, all[i])); }
            }
        }
    }
    cx.state(&(kinds, variant, out.len()));
    cx.validated += 1;
    Ok(())
}
/// Is the closed polygon through these lattice points simple?
fn simple(p: &[(i64, i64)]) -> bool {
    let n = p.len();
    let o = |a: (i64, i64), b: (i64, i64), c: (i64, i64)| ((b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)).signum();
    let on = |a: (i64, i64), b: (i64, i64), c: (i64, i64)| o(a, b, c) == 0 && c.0 >= a.0.min(b.0) && c.0 <= a.0.max(b.0) && c.1 >= a.1.min(b.1) && c.1 <= a.1.max(b.1);
    for i in 0..n { for j in i + 1..n {
        if p[i] == p[j] { return false; }
        let (a, b, c, d) = (p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]);
        if b == c { if on(a, b, d) || on(c, d, a) { return false; } }
        else if d == a { if on(a, b, c) || on(c, d, b) { return false; } }
        else if on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b) || (o(a, b, c) != o(a, b, d) && o(c, d, a) != o(c, d, b)) { return false; }
    } }
    true
}
/// (x, y, step): where the lattice lies on the map.
const PLACES: &[(f64, f64, f64)] = &[(0., 0., 1.), (7654321.5, 5432109.25, 0.0009765625), (-123.5, 45.25, 9.5367431640625e-7), (-1e6, -1e9, 0.125), (-1., -1., 1.), (0., 0., 1e-200), (0., 0., 1e200), (-3e15, 3e15, 1.)];
/// One ring of k lattice points, somewhere on the map, alone or in a corner of a far larger bounding box.
fn c18_shape(k: usize, i: u64, cx: &mut Cx) -> R {
    let mut d = Dec(i);
    let (pl, wide) = (*d.pick(PLACES), d.take(3));
    let p: Vec<(i64, i64)> = (0..k).map(|_| { let q = d.take(9) as i64; (q % 3, q / 3) }).collect();
    if !simple(&p) { return Ok(()); }
    let a: i64 = (0..k).map(|i| { let (u, w) = (p[i], p[(i + 1) % k]); u.0 * w.1 - w.0 * u.1 }).sum();
    let mut r: Vec<F> = p.iter().map(|q| (pl.0 + q.0 as f64 * pl.2, pl.1 + q.1 as f64 * pl.2)).collect();
    r.push(r[0]);
    let big = 1024. * pl.2;
    let bb = match wide { 0 => [pl.0, pl.1, pl.0 + 2. * pl.2, pl.1 + 2. * pl.2], 1 => [pl.0, pl.1, pl.0 + big, pl.1 + big], _ => [pl.0 - big, pl.1 - big, pl.0 + 2. * pl.2, pl.1 + 2. * pl.2] };
    let file = shp_file(&[vec![r.clone()]], Some(bb));
    let out = cx.call("converting", || convert(file, 1))??;
    let got: Vec<(usize, usize)> = out.iter().map(|o| (o.1.len(), o.2.len())).collect();
    let want = if a < 0 { (1, 0) } else { (0, 1) };
    if got != vec![want] || out[0].1.iter().chain(&out[0].2).any(|x| x.len() != k + 1) { return Err(format!("ring {:?} in {:?} became {:?}, expected {:?} (outer, inner) rings of {} points", r, bb, out, want, k + 1)); }
    cx.note(if a < 0 { "clockwise" } else { "counter-clockwise" });
    cx.state(&(&p, i % (3 * PLACES.len() as u64)));
    cx.validated += 1;
    Ok(())
}
/// Many records, many rings, long rings: (records, rings per record, points per side of a ring).
const MANY: &[(usize, usize, usize)] = &[(1, 127, 2), (1, 128, 2), (1, 129, 3), (1, 255, 2), (1, 256, 2), (1, 257, 2), (3, 1000, 2), (1, 4097, 2), (1, 65537, 2), (300, 3, 2), (70000, 1, 2), (2, 2, 64), (1, 3, 129), (2, 1, 1025), (1, 2, 4097), (1, 2, 32767), (1, 2, 32768), (1, 2, 32769), (1, 1, 100000)];
fn c18_many(i: u64, cx: &mut Cx) -> R {
    let mut d = Dec(i);
    let ((n, rings, side), rule, shape) = (*d.pick(MANY), d.take(5), d.take(2));
    let inner = |k: usize, j: usize| match rule { 0 => false, 1 => true, 2 => j % 2 == 1, 3 => (k + j * j / 3) % 3 == 0, _ => j + 1 == rings || j % 256 == 255 };
    // a band that goes up along one side and down along the other; clockwise with y up
    let ring = |k: usize, j: usize| -> Vec<(i64, i64)> {
        let (x, y) = ((k % 700) as i64 * 64, (k / 700) as i64 * 64 + (j % 8) as i64);
        let w = |t: usize| if shape == 0 { 0 } else { (t * 7 % 5) as i64 };
        let mut v: Vec<(i64, i64)> = (0..side).map(|t| (x + w(t), y + t as i64 * 16)).chain((0..side).rev().map(|t| (x + 8 + w(t), y + t as i64 * 16))).collect();
        let l = v.len();
        v.rotate_left((j * 3 + k) % l);
        if inner(k, j) { v.reverse(); }
        v.push(v[0]);
        v
    };
    let recs: Vec<Vec<Vec<(i64, i64)>>> = (0..n).map(|k| (0..rings).map(|j| ring(k, j)).collect()).collect();
    let hi = recs.iter().flatten().flatten().fold((0, 0), |a, p| (p.0.max(a.0), p.1.max(a.1)));
    let file = shp_file(&recs.iter().map(|r| r.iter().map(|x| x.iter().map(|p| (p.0 as f64, p.1 as f64)).collect()).collect()).collect::<Vec<_>>(), Some([0., 0., hi.0 as f64, hi.1 as f64]));
    let dbf = dbf_file(&[field("name", 'C', 8)], &(0..n).map(|i| vec![padr(format!("n{}", i).as_bytes(), 8)]).collect::<Vec<_>>(), true);
    cx.call("converting", || -> R {
        let mut r = ShapefileReader::new(Cursor::new(file), Cursor::new(dbf), utf8()).map_err(|e| e.to_string())?;
        let name = r.get_field("name").ok_or("no field")?;
        let mut k = 0;
        for x in ShapefileGeoIterator::new(&mut r) {
            let x = x.map_err(|e| e.to_string())?;
            if k >= n { return Err("too many regions".into()); }
            if name.read_string(&x.data).map_err(|e| e.to_string())? != format!("n{}", k) { return Err(format!("region {} has another record's data", k)); }
            for (what, got, want) in [("outer", &x.outer_rings, false), ("inner", &x.inner_rings, true)] {
                let idx: Vec<usize> = (0..rings).filter(|&j| inner(k, j) == want).collect();
                if got.len() != idx.len() { return Err(format!("record {}: {} {} rings, expected {}", k, got.len(), what, idx.len())); }
                for (g, &j) in got.iter().zip(&idx) {
                    let g = g.points();
                    let src = &recs[k][j];
                    if g.len() != src.len() { return Err(format!("record {}: {} ring {} has {} points instead of {}", k, what, j, g.len(), src.len())); }
                    for (q, p) in g.iter().zip(src) {
                        check_q(0, hi.0, false, p.0, q.0).and_then(|_| check_q(0, hi.1, true, p.1, q.1)).map_err(|e| format!("record {} ring {} point {:?}: {}", k, j, p, e))?;
                    }
                }
            }
            k += 1;
        }
        if k != n { return Err(format!("{} regions for {} records", k, n)); }
        Ok(())
    })??;
    cx.state(&(n, rings, side, rule, shape));
    cx.validated += 1;
    Ok(())
}
fn c18_spaces(th: bool) -> Vec<Space> {
    let nb = bboxes().len() as u64;
    let ns: &'static [i64] = if th { &[3, 10, 49, 255, 256, 1000, 4095, 20011, 65537, 300007] } else { &[3, 10, 49, 255, 256, 1000, 4095, 20011] };
    let nn = ns.len() as u64;
    let k: u32 = if th { 9 } else { 7 };
    let shapes = (3..=if th { 8 } else { 7 }).map(|k: usize| Space::new(format!("shapes-{}", k), pow(9, k as u32) * 3 * PLACES.len() as u64, move |i, cx| c18_shape(k, i, cx), move |i| format!("lattice ring of {} points, case {}", k, i)));
    let mut v = vec![
        Space::new("quantize", nb * nn * 4, move |i, cx| { let mut d = Dec(i); let (b, n, v) = (d.take(nb) as usize, *d.pick(ns), d.take(4)); c18_quantize(b, n, v, cx) }, move |i| { let mut d = Dec(i); format!("bounding box {}, {} steps, pairing {}", d.take(nb), d.pick(ns), d.take(4)) }),
        Space::new("orientation", 4 * (1..=k).map(|n| pow(4, n)).sum::<u64>(), move |i, cx| {
            let (v, mut j) = (i % 4, i / 4);
            let mut n = 1; while j >= pow(4, n) { j -= pow(4, n); n += 1; }
            let mut d = Dec(j);
            let kinds: Vec<u64> = (0..n).map(|m| d.take(4) + 4 * (m as u64 % 2)).collect();
            c18_orient(&kinds, v, cx)
        }, |i| format!("ring directions {}, variant {}", i / 4, i % 4)),
    ];
    v.extend(shapes);
    v.push(Space::new("many", MANY.len() as u64 * 10, c18_many, |i| { let mut d = Dec(i); let (m, r, s) = (d.pick(MANY), d.take(5), d.take(2)); format!("(records, rings, points per side) {:?}, directions by rule {}, shape {}", m, r, s) }));
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C13", level: "model_checking", spaces: c13_spaces },
        Prop { id: "C14", level: "model_checking", spaces: c14_spaces },
        Prop { id: "C15", level: "model_checking", spaces: c15_spaces },
        Prop { id: "C16", level: "fault_enumeration", spaces: c16_spaces },
        Prop { id: "C17", level: "fault_enumeration", spaces: c17_spaces },
        Prop { id: "C18", level: "model_checking", spaces: c18_spaces },
    ]
}
