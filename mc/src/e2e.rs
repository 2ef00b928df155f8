//! C20: from shapefile bytes to a clipped map.
use crate::clip::{covers_rounded, inside_shared, inside_shared_all};
use crate::core::*;
use crate::files::*;
use crate::geom::*;
use crate::maps::*;
use crate::topo::covers;
use crate::wf::*;
use crate::Prop;
use std::io::Cursor;
use topogeo::read::shapefile::{DbfRecord, ShapefileGeoIterator, ShapefileReader};
use topogeo::topology::{Topology, TopologyBuilder};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step { Norm, Clip(M) }

/// The map on the ground: y up, with scale and offset.
#[derive(Clone, Copy, Debug)]
struct Ground { sx: f64, sy: f64, ox: f64, oy: f64 }
const GROUNDS: [Ground; 3] = [Ground { sx: 1.0, sy: 1.0, ox: 0.0, oy: 0.0 }, Ground { sx: 0.25, sy: 2.0, ox: -180.0, oy: -4096.0 }, Ground { sx: 360.0 / 4096.0, sy: 0.1, ox: -180.0, oy: -90.0 }];

fn ground(g: Ground, p: P) -> F { (p.0 as f64 * g.sx + g.ox, -(p.1 as f64) * g.sy + g.oy) }

/// Complexes in small integer coordinates; quantization spreads them over the whole u32 range.
fn bed(k: usize) -> Complex {
    match k {
        0 => grid("bed-sq3x3", &[0, 5, 11, 16], &[0, 4, 9, 16], Diag::None, &[]),
        1 => grid("bed-tri2x2", &[0, 7, 16], &[0, 6, 16], Diag::Alt, &[]),
        2 => grid("bed-sq2x2", &[0, 8, 16], &[0, 8, 16], Diag::None, &[]),
        _ => grid("bed-cross1x1", &[0, 16], &[0, 16], Diag::Cross, &[]),
    }
}

fn run(c: &Complex, l: &LMap, turn: u8, g: Ground, degenerate: u64, steps: &[(bool, Option<usize>)], cx: &mut Cx) -> R {
    let pres = if turn == 3 { l.present_faces(c) } else { l.present(c, turn) };
    if pres.is_empty() { return Ok(()); }
    // records: one per region; the attribute table names them; zero-area records in between
    let mut recs: Vec<Vec<Vec<F>>> = vec![];
    let mut attrs: Vec<Vec<Vec<u8>>> = vec![];
    let close = |r: &PRing, rev: bool| { let mut v: Vec<F> = r.pts.iter().map(|&p| ground(g, p)).collect(); if rev { v.reverse(); } v.push(v[0]); v };
    let row = |name: &str, id: u32| vec![padr(name.as_bytes(), 6), le(id).to_vec(), padl(format!("{}.5", id).as_bytes(), 7)];
    let ext = |f: &dyn Fn(&P) -> i64| { let v: Vec<i64> = c.verts.iter().map(f).collect(); (*v.iter().min().unwrap(), *v.iter().max().unwrap()) };
    let ((x0, x1), (y0, y1)) = (ext(&|p| p.0), ext(&|p| p.1));
    let flat = || vec![vec![ground(g, (x0, y0)), ground(g, (x0, (y0 + y1) / 2)), ground(g, (x0, y1)), ground(g, (x0, y0))]];
    for (i, r) in pres.iter().enumerate() {
        if i < 60 && degenerate >> i & 1 == 1 { recs.push(flat()); attrs.push(row("flat", 900 + i as u32)); }
        // outer rings clockwise on the map; screen-clockwise (y down) is map-clockwise too
        recs.push(r.outer.iter().chain(&r.inner).map(|x| close(x, false)).collect());
        attrs.push(row(&format!("r{}", r.data), r.data));
    }
    // an anchor that spans the bounding box is not needed: the header gives the box
    let (lo, hi) = (ground(g, (x0, y1)), ground(g, (x1, y0)));
    let shp = shp_file(&recs, Some([lo.0, lo.1, hi.0, hi.1]));
    let dbf = dbf_file(&[field("name", 'C', 6), field("id", '+', 4), field("val", 'N', 7)], &attrs, true);
    let n = recs.len();
    let (topo, name, id, val, q) = cx.call("reading and building", || -> Result<_, String> {
        let mut r = ShapefileReader::new(Cursor::new(shp), Cursor::new(dbf), encoding::all::UTF_8).map_err(|e| e.to_string())?;
        let (a, b, c) = (r.get_field("name").ok_or("name")?, r.get_field("id").ok_or("id")?, r.get_field("val").ok_or("val")?);
        let mut tb = TopologyBuilder::<DbfRecord>::new();
        let mut q: Vec<Vec<P>> = vec![];
        let mut k = 0;
        for reg in ShapefileGeoIterator::new(&mut r) {
            let reg = reg.map_err(|e| e.to_string())?;
            for x in reg.outer_rings.iter().chain(reg.inner_rings.iter()) { let ps: Vec<P> = x.points().iter().map(unpt).collect(); if area2(&ps) != 0 { q.push(ps); } }
            tb.add_region(reg);
            k += 1;
            if k > n { return Err("more regions than records".into()); }
        }
        if k != n { return Err(format!("{} regions for {} records", k, n)); }
        Ok((tb.into_topology(), a, b, c, q))
    })??;
    // the quantized complex: each coordinate value went to one u32
    let mut qv: Vec<P> = vec![];
    let mut qs: Vec<P> = q.iter().flatten().cloned().collect();
    qs.sort_unstable(); qs.dedup();
    for v in &c.verts {
        let gp = ground(g, *v);
        let fx = (gp.0 - lo.0) / (hi.0 - lo.0) * 4294967295.0;
        let fy = (hi.1 - gp.1) / (hi.1 - lo.1) * 4294967295.0;
        // an occurrence of this vertex in the quantized rings, or any rounding if no ring uses it
        let near = |p: &P| (p.0 as f64 - fx).abs() <= 1.01 && (p.1 as f64 - fy).abs() <= 1.01;
        let seen: Vec<P> = qs[qs.partition_point(|p| (p.0 as f64) < fx - 1.01)..].iter().take_while(|p| (p.0 as f64) <= fx + 1.01).filter(|p| near(p)).cloned().collect();
        if seen.len() > 1 { return Err(format!("vertex {:?} was quantized to {:?}", v, seen)); }
        qv.push(seen.first().cloned().unwrap_or((fx as i64, fy as i64)));
    }
    let mut known = qv.clone();
    known.sort_unstable();
    for p in &qs { if known.binary_search(p).is_err() { return Err(format!("quantized point {:?} is no vertex of the map", p)); } }
    let qc = Complex { name: c.name.clone(), verts: qv, faces: c.faces.clone() };
    for f in 0..qc.faces.len() { if area2(&qc.poly(f)) <= 0 { return Err("quantization turned a face over".into()); } }
    let key = |d: &DbfRecord| -> u32 {
        let (a, b, c) = (name.read_string(d), id.read_string(d), val.read_string(d));
        match (a, b, c) { (Ok(a), Ok(b), Ok(c)) => { let k: u32 = b.parse().unwrap_or(u32::MAX); if a == format!("r{}", k) && c == format!("{}.5", k) { k } else { u32::MAX } } _ => u32::MAX }
    };
    let mut t: Topology<DbfRecord> = topo;
    let mut done: Vec<M> = vec![];
    let mids = |axis: usize, k: usize| { let mut v: Vec<i64> = qc.verts.iter().map(|p| if axis == 0 { p.0 } else { p.1 }).collect(); v.sort_unstable(); v.dedup(); let j = 1 + k % (v.len() - 1); if k / (v.len() - 1) % 2 == 0 { v[j] } else { v[j - 1] + (v[j] - v[j - 1]) / 3 } };
    let mut rounded = false;
    for k in 0..=steps.len() {
        let v = view(&t, key).map_err(|e| e)?;
        let ctx = |e: String| format!("{} -- after {:?}: {}", e, &steps[..k], v.show());
        v.structure().map_err(ctx)?;
        let exact = l.all_faces().iter().all(|f| qc.chain_clipped(f.iter().cloned(), &done).is_some());
        if !exact { rounded = true; }
        if !rounded { covers(&v, &qc, l, &done).map_err(ctx)?; inside_shared_all(&v, &done, true).map_err(ctx)?; if done.is_empty() { v.stored_once().map_err(ctx)?; } }
        else if done.len() == 1 { covers_rounded(&v, &qc, l, done[0], cx).map_err(ctx)?; inside_shared(&v, done[0], false).map_err(ctx)?; }
        else { // several rounded clips: order, attributes and containment only
            let ids: Vec<u32> = v.regions.iter().map(|r| r.data).collect();
            let all: Vec<u32> = l.regions.iter().map(|r| r.0).collect();
            let mut it = all.iter();
            if !ids.iter().all(|i| it.any(|x| x == i)) { return Err(ctx(format!("regions {:?}", ids))); }
            for e in &v.edges { for p in e { if done.iter().any(|m| m.side(*p) < 0) { return Err(ctx(format!("point {:?} is outside", p))); } } }
        }
        cx.state(&v);
        if k == steps.len() { break; }
        if steps[k].0 { if rounded && v.stored_once().is_err() { cx.note("left the domain: coinciding boundaries"); return Ok(()); } t = cx.call("normalizing", || topogeo::normalize(&t))?; let v = view(&t, key)?; v.structure().map_err(|e| format!("normalized: {}", e))?; }
        if let Some(s) = steps[k].1 { let m = M::kind((s % 4) as u64, mids(s % 4 / 2, s / 4)); t = cx.call("clipping", || topogeo::clip::clip_topology(&t, &m.real()))?; done.push(m); }
    }
    cx.note(if rounded { "rounded crossings" } else { "exact" });
    cx.validated += 1;
    Ok(())
}

fn space(bed_no: usize, alphabet: &'static str, turns: &'static [u8], grounds: u64, masks: u64, clips: u32, degen: u64) -> Space {
    let c = std::sync::Arc::new(bed(bed_no));
    let a = alpha(alphabet);
    let n = a.len() as u64;
    let nf = c.faces.len();
    let maps = pow(n, nf as u32);
    space_of(c.clone(), format!("{}/{}/{:?}/clips{}", c.name, alphabet, turns, clips), maps, move |k| { let mut d = Dec(k); let labels: Vec<usize> = (0..nf).map(|_| d.take(n) as usize).collect(); LMap::new(&labels, &a) }, turns, grounds, masks, clips, degen)
}
/// A larger map of `patterned`.
fn space_pat(m: Map, turns: &'static [u8], grounds: u64, masks: u64, clips: u32, degen: u64) -> Space {
    let c = std::sync::Arc::new(Complex { name: m.cx.name.clone(), verts: m.cx.verts.clone(), faces: m.cx.faces.clone() });
    let n = m.table.as_ref().unwrap().len() as u64;
    space_of(c, format!("{}/{:?}/clips{}", m.name, turns, clips), n, move |k| LMap::new(&m.table.as_ref().unwrap()[k as usize], &m.alphabet), turns, grounds, masks, clips, degen)
}
fn space_of(c: std::sync::Arc<Complex>, name: String, maps: u64, label: impl Fn(u64) -> LMap + Clone + Send + Sync + 'static, turns: &'static [u8], grounds: u64, masks: u64, clips: u32, degen: u64) -> Space {
    let nm = masks;
    let size = maps * turns.len() as u64 * grounds * pow(nm * 2, clips) * degen;
    let dec = move |i: u64| {
        let mut d = Dec(i);
        let g = GROUNDS[d.take(grounds) as usize];
        let dg = d.take(degen);
        let turn = *d.pick(turns);
        let mut steps: Vec<(bool, Option<usize>)> = (0..clips).map(|_| { let s = d.take(nm) as usize; (d.take(2) == 1, Some(s)) }).collect();
        steps.push((true, None));
        (g, dg, turn, steps, label(d.0))
    };
    let (d2, c2) = (dec.clone(), c.clone());
    Space::new(name, size, move |i, cx| { let (g, dg, turn, steps, l) = dec(i); run(&c, &l, turn, g, dg, &steps, cx) },
        move |i| { let (g, dg, turn, steps, l) = d2(i); format!("{:?}, degenerate records {:b}, (normalize first, mask) {:?} on {}", g, dg, steps, show_regions(&if turn == 3 { l.present_faces(&c2) } else { l.present(&c2, turn) })) })
}

fn spaces(th: bool) -> Vec<Space> {
    let mut v = vec![
        space(2, "0ABC", &[0, 3], 3, 12, 1, 4),
        space(0, "0A", &[0, 2, 3], 3, 16, 1, 1),
        space(0, "0AB", &[0], 1, 8, 1, 1),
        space(1, "0AB", &[0, 3], 1, 16, 1, 1),
        space(3, "0ABC", &[0], 3, 16, 1, 2),
        space(2, "0AB", &[0], 2, 12, 2, 1),
        space_pat(patterned(5, 5, Diag::None, 4, &[0], false), &[0, 3], 3, 12, 1, 1),
        space_pat(patterned(6, 4, Diag::Alt, 2, &[0], true), &[0, 3], 3, 20, 1, 2),
        space_pat(patterned(7, 9, Diag::None, 3, &[0], true), &[0], 3, 8, 2, 1),
        space_pat(patterned(190, 181, Diag::None, 30, &[0], true), &[0], 1, 2, 1, 1),
        space_pat(patterned(16, 17, Diag::None, 2, &[0], true), &[0], 2, 16, 1, 1),
    ];
    if th {
        v.extend(vec![
            space(0, "0AB", &[0, 1, 2, 3], 3, 24, 1, 1),
            space(1, "0AaB", &[0, 1], 3, 16, 1, 1),
            space(1, "0ABC", &[0], 1, 16, 1, 2),
            space(3, "0AaB", &[0, 1, 2], 3, 8, 2, 2),
            space(0, "0A", &[0], 2, 12, 2, 1),
            space(2, "0AB", &[0], 1, 12, 3, 1),
            space_pat(patterned(9, 11, Diag::Cross, 2, &[0], false), &[0, 2, 3], 3, 16, 1, 1),
            space_pat(patterned(12, 12, Diag::None, 3, &[0], false), &[0, 1, 3], 3, 24, 1, 2),
            space_pat(patterned(30, 29, Diag::Down, 2, &[0], true), &[0, 3], 3, 16, 1, 1),
        ]);
    }
    v
}

pub fn props() -> Vec<Prop> { vec![Prop { id: "C20", level: "model_checking", spaces }] }
