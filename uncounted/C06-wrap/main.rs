extern crate topogeo;
extern crate encoding;
#[allow(unused_imports)] use topogeo::geo::*;
#[allow(unused_imports)] use topogeo::topology::*;
#[allow(unused_imports)] use topogeo::clip::*;
#[allow(dead_code)] fn pts(p: &[(u32, u32)]) -> Vec<Point> { p.iter().map(|q| Point(q.0, q.1)).collect() }
#[allow(dead_code)] fn ring(p: &[(u32, u32)]) -> Ring { let mut v = pts(p); let f = v[0]; v.push(f); Ring::Points(v.into_boxed_slice()) }
#[allow(dead_code)] fn region(d: u32, outer: &[&[(u32, u32)]], inner: &[&[(u32, u32)]]) -> Region<u32> {
    Region { data: d, outer_rings: outer.iter().map(|r| ring(r)).collect::<Vec<_>>().into_boxed_slice(), inner_rings: inner.iter().map(|r| ring(r)).collect::<Vec<_>>().into_boxed_slice() } }
#[allow(dead_code)] fn build(rs: Vec<Region<u32>>) -> Topology<u32> { let mut b = TopologyBuilder::new(); for r in rs { b.add_region(r); } b.into_topology() }
#[allow(dead_code)] fn trace<D>(r: &TopoRing<D>) -> Vec<(u32, u32)> {
    let mut out: Vec<(u32, u32)> = vec![];
    for de in r.directed_edges.iter() {
        let e = unsafe { &*de.edge };
        let mut p: Vec<(u32, u32)> = e.points.iter().map(|q| (q.0, q.1)).collect();
        if de.direction == Direction::Backward { p.reverse(); }
        if out.is_empty() { out = p } else { assert_eq!(*out.last().unwrap(), p[0]); out.extend(&p[1..]); }
    }
    assert_eq!(out.first(), out.last()); out.pop(); out }
#[allow(dead_code)] fn area<D>(r: &TopoRegion<D>) -> i64 {
    let mut a = 0i64;
    for x in r.outer_rings.iter().chain(r.inner_rings.iter()) { let t = trace(x); for i in 0..t.len() { let (p, q) = (t[i], t[(i + 1) % t.len()]); a += p.0 as i64 * q.1 as i64 - q.0 as i64 * p.1 as i64; } }
    a }
#[allow(dead_code)] fn shp(records: &[Vec<u8>], bbox: [f64; 4]) -> Vec<u8> {
    let mut v = vec![0, 0, 0x27, 0x0a]; v.extend(&[0u8; 20]);
    let n: usize = 100 + records.iter().map(|r| r.len() + 8).sum::<usize>();
    v.extend(&((n / 2) as u32).to_be_bytes()); v.extend(&1000u32.to_le_bytes()); v.extend(&5u32.to_le_bytes());
    for b in bbox.iter() { v.extend(&b.to_le_bytes()); } v.extend(&[0u8; 32]);
    for (i, r) in records.iter().enumerate() { v.extend(&(i as u32 + 1).to_be_bytes()); v.extend(&((r.len() / 2) as u32).to_be_bytes()); v.extend(r); }
    v }
#[allow(dead_code)] fn rec(parts: &[u32], points: &[(f64, f64)]) -> Vec<u8> {
    let mut v = 5u32.to_le_bytes().to_vec(); v.extend(&[0u8; 32]);
    v.extend(&(parts.len() as u32).to_le_bytes()); v.extend(&(points.len() as u32).to_le_bytes());
    for p in parts { v.extend(&p.to_le_bytes()); } for p in points { v.extend(&p.0.to_le_bytes()); v.extend(&p.1.to_le_bytes()); }
    v }
#[allow(dead_code)] fn dbf(fields: &[(&str, u8, u8)], rows: &[&[u8]]) -> Vec<u8> {
    let len: usize = 1 + fields.iter().map(|f| f.2 as usize).sum::<usize>();
    let mut v = vec![3, 116, 1, 1]; v.extend(&(rows.len() as u32).to_le_bytes()); v.extend(&((32 + 32 * fields.len() + 1) as u16).to_le_bytes()); v.extend(&(len as u16).to_le_bytes()); v.extend(&[0u8; 20]);
    for f in fields { let mut d = [0u8; 32]; d[..f.0.len()].copy_from_slice(f.0.as_bytes()); d[11] = f.1; d[16] = f.2; v.extend(&d); }
    v.push(13); for r in rows { v.push(32); assert_eq!(r.len(), len - 1); v.extend(*r); }
    v }

fn main() {
    // region 1's hole touches itself... two regions that share a boundary which touches itself once
    let a: &[(u32, u32)] = &[(10, 10), (20, 0), (30, 10), (20, 20)];
    let lake: &[(u32, u32)] = &[(10, 10), (20, 20), (30, 10), (20, 0)];
    let c: &[(u32, u32)] = &[(30, 10), (40, 5), (40, 15)];
    let lake2: &[(u32, u32)] = &[(30, 10), (40, 15), (40, 5)];
    for k in 0..4 { for l in 0..3 {
        let rot = |r: &[(u32, u32)], n: usize| { let mut v = r.to_vec(); let m = n % v.len(); v.rotate_left(m); v };
        let t = build(vec![region(1, &[&rot(a, k), &rot(c, l)], &[]), region(2, &[&[(0, 0), (50, 0), (50, 30), (0, 30)]], &[&rot(lake, k), &rot(lake2, l)])]);
        let n = topogeo::normalize(&t);
        for r in n.regions.iter() { for g in r.outer_rings.iter().chain(r.inner_rings.iter()) { assert_eq!(g.directed_edges.len(), 1); } }
    } }
}
