//! Reference writers and readers for .shp and .dbf files, and controllable byte sources.
use std::io;
use std::io::Read;
use topogeo::read::shapefile::dbf::DbfReader;
use topogeo::read::shapefile::shp::{ShpReader, ShpPolygonRing};

pub type F = (f64, f64);
pub type Bits = Vec<Vec<(u64, u64)>>;

pub fn bits(r: &[Vec<F>]) -> Bits { r.iter().map(|x| x.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect()).collect() }
pub fn ring_bits(r: &[ShpPolygonRing]) -> Bits { r.iter().map(|x| x.0.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect()).collect() }

pub fn be(v: u32) -> [u8; 4] { v.to_be_bytes() }
pub fn le(v: u32) -> [u8; 4] { v.to_le_bytes() }

pub fn bbox_of<'a>(ps: impl Iterator<Item = &'a F>) -> [f64; 4] {
    let mut b = [f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY];
    for p in ps { if p.0 < b[0] { b[0] = p.0 } if p.1 < b[1] { b[1] = p.1 } if p.0 > b[2] { b[2] = p.0 } if p.1 > b[3] { b[3] = p.1 } }
    if b[0] > b[2] { [0.; 4] } else { b }
}

/// The content of a polygon record.
pub fn polygon(rings: &[Vec<F>]) -> Vec<u8> {
    let mut v = le(5).to_vec();
    for c in bbox_of(rings.iter().flatten()) { v.extend(c.to_le_bytes()); }
    v.extend(le(rings.len() as u32));
    v.extend(le(rings.iter().map(|r| r.len()).sum::<usize>() as u32));
    let mut at = 0;
    for r in rings { v.extend(le(at)); at += r.len() as u32; }
    for p in rings.iter().flatten() { v.extend(p.0.to_le_bytes()); v.extend(p.1.to_le_bytes()); }
    v
}
pub fn record(num: u32, content: &[u8]) -> Vec<u8> {
    let mut v = be(num).to_vec();
    v.extend(be((content.len() / 2) as u32));
    v.extend(content);
    v
}
pub fn shp_header(total: usize, bbox: [f64; 4]) -> Vec<u8> {
    let mut v = vec![0u8; 100];
    v[0..4].copy_from_slice(&be(9994));
    v[24..28].copy_from_slice(&be((total / 2) as u32));
    v[28..32].copy_from_slice(&le(1000));
    v[32..36].copy_from_slice(&le(5));
    for i in 0..4 { v[36 + 8 * i..44 + 8 * i].copy_from_slice(&bbox[i].to_le_bytes()); }
    v
}
/// A file of (record number, content) records.
pub fn shp_raw(recs: &[(u32, Vec<u8>)], bbox: [f64; 4]) -> Vec<u8> {
    let body: Vec<u8> = recs.iter().flat_map(|(n, c)| record(*n, c)).collect();
    let mut v = shp_header(100 + body.len(), bbox);
    v.extend(body);
    v
}
pub fn shp_file(recs: &[Vec<Vec<F>>], bbox: Option<[f64; 4]>) -> Vec<u8> {
    let b = bbox.unwrap_or_else(|| bbox_of(recs.iter().flatten().flatten()));
    shp_raw(&recs.iter().enumerate().map(|(i, r)| (i as u32 + 1, polygon(r))).collect::<Vec<_>>(), b)
}

#[derive(Clone, Debug)]
pub struct Field { pub name: Vec<u8>, pub ty: u8, pub len: u8 }
pub fn field(name: &str, ty: char, len: u8) -> Field { Field { name: name.as_bytes().to_vec(), ty: ty as u8, len } }

/// `recs`: for each record, the bytes of every field (padded to its length by the caller).
pub fn dbf_file(fields: &[Field], recs: &[Vec<Vec<u8>>], eof: bool) -> Vec<u8> {
    let mut v = vec![0u8; 32];
    v[0] = 3; v[1] = 117; v[2] = 6; v[3] = 15;
    v[4..8].copy_from_slice(&le(recs.len() as u32));
    v[8..10].copy_from_slice(&((33 + 32 * fields.len()) as u16).to_le_bytes());
    let rl = 1 + fields.iter().map(|f| f.len as usize).sum::<usize>();
    v[10..12].copy_from_slice(&(rl as u16).to_le_bytes());
    for f in fields {
        let mut d = [0u8; 32];
        d[..f.name.len()].copy_from_slice(&f.name);
        d[11] = f.ty; d[16] = f.len;
        v.extend(d);
    }
    v.push(0x0d);
    for (i, r) in recs.iter().enumerate() {
        v.push(if i % 3 == 2 { b'*' } else { b' ' });
        for (f, b) in fields.iter().zip(r) { assert_eq!(f.len as usize, b.len()); v.extend(b); }
    }
    if eof { v.push(0x1a); }
    v
}
pub fn padr(s: &[u8], n: usize) -> Vec<u8> { let mut v = s.to_vec(); v.resize(n, b' '); v }
pub fn padl(s: &[u8], n: usize) -> Vec<u8> { let mut v = vec![b' '; n - s.len()]; v.extend(s); v }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ShpOut { pub n_bytes: usize, pub bbox: [u64; 4], pub items: Vec<Result<(u32, Bits), String>>, pub ended: bool }
/// Opens and drains; Err if opening fails.
pub fn read_shp<T: Read>(src: T, limit: usize) -> Result<ShpOut, String> {
    let mut r = ShpReader::new(src).map_err(|e| e.to_string())?;
    let b = r.header.bounding_box;
    let mut o = ShpOut { n_bytes: r.header.file_n_bytes, bbox: [b.0.to_bits(), b.1.to_bits(), b.2.to_bits(), b.3.to_bits()], items: vec![], ended: false };
    while o.items.len() < limit {
        match r.next() {
            None => { o.ended = true; break; }
            Some(Ok(x)) => o.items.push(Ok((x.record_number, ring_bits(&x.rings)))),
            Some(Err(e)) => o.items.push(Err(e.to_string())),
        }
    }
    // the end is final
    if o.ended && r.next().is_some() { o.ended = false; }
    Ok(o)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct DbfOut { pub names: Vec<String>, pub items: Vec<Result<(Vec<u8>, Vec<Result<String, String>>), String>>, pub ended: bool }
pub fn read_dbf<T: Read>(src: T, enc: encoding::EncodingRef, limit: usize) -> Result<DbfOut, String> {
    let mut r = DbfReader::new(src, enc).map_err(|e| e.to_string())?;
    let fields: Vec<_> = r.meta.fields.iter().cloned().collect();
    let mut o = DbfOut { names: fields.iter().map(|f| f.name.clone()).collect(), items: vec![], ended: false };
    while o.items.len() < limit {
        match r.next() {
            None => { o.ended = true; break; }
            Some(Ok(x)) => { let vals = fields.iter().map(|f| f.read_string(&x).map_err(|e| e.to_string())).collect(); o.items.push(Ok((x.bytes.to_vec(), vals))) }
            Some(Err(e)) => o.items.push(Err(e.to_string())),
        }
    }
    if o.ended && r.next().is_some() { o.ended = false; }
    Ok(o)
}

/// What a byte source does at each read call.
#[derive(Clone, Debug)]
pub struct Source {
    pub data: Vec<u8>,
    pub pos: usize,
    /// Positions at which a read call stops early; constant chunk size if not 0.
    pub splits: Vec<usize>,
    pub chunk: usize,
    /// At each of these positions `interrupts` calls report an interruption first.
    pub interrupt_at: Vec<usize>,
    pub interrupts: usize,
    pub seen: usize,
    /// At this position calls fail (`fail_times` times, then go on).
    pub fail_at: Option<usize>,
    pub fail_times: usize,
    pub kind: io::ErrorKind,
}
impl Source {
    pub fn new(data: &[u8]) -> Source { Source { data: data.to_vec(), pos: 0, splits: vec![], chunk: 0, interrupt_at: vec![], interrupts: 1, seen: 0, fail_at: None, fail_times: usize::MAX, kind: io::ErrorKind::Other } }
}
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        if self.interrupt_at.contains(&self.pos) && self.seen < self.interrupts { self.seen += 1; return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")); }
        if self.fail_at == Some(self.pos) && self.fail_times > 0 { self.fail_times -= 1; return Err(io::Error::new(self.kind, "the source failed")); }
        let mut end = (self.pos + buf.len()).min(self.data.len());
        if self.chunk > 0 { end = end.min(self.pos + self.chunk); }
        for &s in self.splits.iter().chain(&self.interrupt_at) { if s > self.pos && s < end { end = s; } }
        if let Some(f) = self.fail_at { if f > self.pos && f < end { end = f; } }
        let n = end - self.pos;
        buf[..n].copy_from_slice(&self.data[self.pos..end]);
        if n > 0 { self.seen = 0; }
        self.pos = end;
        Ok(n)
    }
}
