//! C02, C03, C05, C06, C07: building and normalizing planar maps.
use crate::core::*;
use crate::geom::*;
use crate::maps::*;
use crate::wf::*;
use crate::Prop;
use topogeo::topology::{Topology, TopologyBuilder};

pub fn build(cx: &mut Cx, rs: &[PRegion]) -> Result<Topology<u32>, String> {
    cx.call("building", || {
        let mut b = TopologyBuilder::new();
        for r in rs { b.add_region(to_region(r, r.data)); }
        b.into_topology()
    })
}
pub fn normalize(cx: &mut Cx, t: &Topology<u32>) -> Result<Topology<u32>, String> { cx.call("normalizing", || topogeo::normalize(t)) }

fn dedup_ring(ps: &[P]) -> Vec<P> {
    let mut v: Vec<P> = vec![];
    for &p in ps { if v.last() != Some(&p) { v.push(p); } }
    while v.len() > 1 && v[0] == v[v.len() - 1] { v.pop(); }
    v
}

/// C02: the view retraces the presented regions.
pub fn retraces(v: &View<u32>, rs: &[PRegion]) -> R {
    v.structure()?;
    let want: Vec<PRegion> = rs.iter().map(|r| PRegion { data: r.data,
        outer: r.outer.iter().filter(|x| area2(&x.pts) != 0).cloned().collect(),
        inner: r.inner.iter().filter(|x| area2(&x.pts) != 0).cloned().collect() }).filter(|r| !r.outer.is_empty()).collect();
    let ids: Vec<u32> = v.regions.iter().map(|r| r.data).collect();
    let wids: Vec<u32> = want.iter().map(|r| r.data).collect();
    if ids != wids { return Err(format!("regions {:?}, expected {:?}", ids, wids)); }
    for (r, w) in v.regions.iter().zip(&want) {
        for (kind, a, b) in [("outer", &r.outer, &w.outer), ("inner", &r.inner, &w.inner)] {
            if a.len() != b.len() { return Err(format!("region {} has {} {} rings, expected {}", r.data, a.len(), kind, b.len())); }
            for (x, y) in a.iter().zip(b) {
                let got = v.trace(x);
                if dedup_ring(&got) != dedup_ring(&y.pts) { return Err(format!("region {} {} ring reads {:?}, expected {:?}", r.data, kind, got, y.pts)); }
            }
        }
    }
    Ok(())
}

fn map_space(m: &Map, tag: &str, f: fn(&MapCfg, &LMap, u8, &[PRegion], &mut Cx) -> R) -> Space {
    let (a, b) = (m.clone(), m.clone());
    Space::new(format!("{}{}", tag, m.name), m.size(), move |i, cx| { let (l, t, p) = a.decode(i); f(&a, &l, t, &p, cx) }, move |i| b.describe(i))
}

fn c02(_: &MapCfg, _l: &LMap, _t: u8, p: &[PRegion], cx: &mut Cx) -> R {
    let t = build(cx, p)?;
    let v = view32(&t)?;
    cx.state(&v);
    retraces(&v, p)?;
    cx.validated += 1;
    Ok(())
}

/// The same regions written down in different ways; 0 = plain closed point lists.
const WRITINGS: u64 = 10;
fn write(p: &[PRegion], w: u64) -> (Vec<topogeo::geo::Region<u32>>, Vec<PRegion>) {
    use topogeo::geo::{Region, Ring};
    let mut want = p.to_vec();
    let zero = |k: usize, at: P| PRing { pts: match k % 4 { 0 => vec![at, at, at], 1 => vec![at, (at.0, at.1 + 1)], 2 => vec![at, (at.0 + 2, at.1), (at.0 + 1, at.1)], _ => vec![at, (at.0, at.1 + 3), (at.0, at.1 + 1), (at.0, at.1 + 2)] } };
    match w {
        5 | 6 => {
            // zero-area rings beside the real ones, and regions made of nothing else
            let mut k = 0;
            for r in want.iter_mut() {
                let at = if w == 5 { (0, 0) } else { r.outer.first().map_or((1, 1), |x| x.pts[0]) };
                r.outer.insert(k % 2, zero(k, at)); k += 1;
                r.inner.push(zero(k, at)); k += 1;
            }
            want.insert(want.len() / 2, PRegion { data: 77, outer: vec![zero(k, (1, 0))], inner: vec![zero(k + 1, (0, 1))] });
            want.push(PRegion { data: 78, outer: vec![], inner: vec![] });
            want.insert(0, PRegion { data: 79, outer: vec![zero(k + 2, (0, 0)), zero(k + 3, (1, 1))], inner: vec![] });
        }
        9 => {
            // regions that must vanish without a trace although they have a real inner ring
            let hole = PRing { pts: vec![(0, 0), (0, 1), (1, 0)] };
            let copy = want.first().map(|r| r.outer[0].clone());
            want.insert(0, PRegion { data: 80, outer: vec![zero(1, (0, 0))], inner: vec![hole.clone()] });
            want.push(PRegion { data: 81, outer: vec![], inner: vec![hole] });
            want.insert(want.len() / 2, PRegion { data: 82, outer: vec![zero(3, (1, 1)), zero(0, (1, 0))], inner: copy.into_iter().collect() });
        }
        7 => { let mut k = 0; for r in want.iter_mut() { for x in r.outer.iter_mut().chain(r.inner.iter_mut()) { k += 1; if k % 2 == 1 { x.pts.reverse(); } } } }
        8 => for r in want.iter_mut() { for x in r.outer.iter_mut().chain(r.inner.iter_mut()) { let n = x.pts.len(); x.pts.rotate_left(n / 2); } }
        _ => {}
    }
    let ring = |r: &PRing| -> Ring { match w {
        1 => ring_points(&PRing { pts: r.pts.iter().flat_map(|&p| [p, p]).collect() }),
        2 | 3 => ring_edges(r, w as usize - 1),
        4 => { let mut q = r.pts.clone(); q.insert(0, q[0]); let n = q.len(); q.insert(n / 2, q[n / 2]); q.push(q[0]); ring_edges(&PRing { pts: q }, 3) }
        6 => ring_edges(r, 2),
        _ => ring_points(r),
    } };
    (want.iter().map(|r| Region { data: r.data, outer_rings: r.outer.iter().map(ring).collect::<Vec<_>>().into_boxed_slice(), inner_rings: r.inner.iter().map(ring).collect::<Vec<_>>().into_boxed_slice() }).collect(), want)
}
fn c02_written(p: &[PRegion], w: u64, cx: &mut Cx) -> R {
    let (regs, want) = write(p, w);
    let t = cx.call("building", || { let mut b = TopologyBuilder::new(); for r in regs { b.add_region(r); } b.into_topology() })?;
    let v = view32(&t)?;
    cx.state(&(w, &v));
    retraces(&v, &want).map_err(|e| format!("written in way {}: {}", w, e))?;
    cx.validated += 1;
    Ok(())
}
fn c03_written(m: &MapCfg, l: &LMap, p: &[PRegion], w: u64, cx: &mut Cx) -> R {
    let (regs, _) = write(p, w);
    let t = cx.call("building", || { let mut b = TopologyBuilder::new(); for r in regs { b.add_region(r); } b.into_topology() })?;
    let v = view32(&t)?;
    cx.state(&(w, &v));
    sharing(&v, &m.cx, l).map_err(|e| format!("written in way {}: {}", w, e))?;
    let n = normalize(cx, &t)?;
    sharing(&view32(&n)?, &m.cx, l).map_err(|e| format!("written in way {}, normalized: {}", w, e))?;
    cx.validated += 2;
    Ok(())
}
/// Ways of writing that leave common boundaries with common points and edges.
const SHARED_WRITINGS: &[u64] = &[1, 5, 7, 8, 9];
fn c03_written_space(m: &Map) -> Space {
    let n = SHARED_WRITINGS.len() as u64;
    let (a, b) = (m.clone(), m.clone());
    Space::new(format!("written/{}", m.name), m.size() * n, move |i, cx| { let (l, _, p) = a.decode(i / n); c03_written(&a, &l, &p, SHARED_WRITINGS[(i % n) as usize], cx) },
        move |i| format!("written in way {}: {}", SHARED_WRITINGS[(i % n) as usize], b.describe(i / n)))
}
fn written_space(m: &Map) -> Space {
    let (a, b) = (m.clone(), m.clone());
    Space::new(format!("written/{}", m.name), m.size() * (WRITINGS - 1), move |i, cx| { let (_, _, p) = a.decode(i / (WRITINGS - 1)); c02_written(&p, i % (WRITINGS - 1) + 1, cx) },
        move |i| format!("written in way {}: {}", i % (WRITINGS - 1) + 1, b.describe(i / (WRITINGS - 1))))
}
/// A row of n regions, each side made of k segments: many regions, long rings.
fn row(n: usize, k: usize) -> Vec<PRegion> {
    let side = |i: usize| -> Vec<P> { (0..=k).map(|j| ((i * 10 + if j % 2 == 1 { 3 } else { 1 }) as i64, (j * 4) as i64)).collect() };
    (0..n).map(|i| { let mut pts: Vec<P> = side(i); pts.reverse(); pts.extend(side(i + 1)); PRegion { data: i as u32, outer: vec![PRing { pts }], inner: vec![] } }).collect()
}
fn rows_space(th: bool) -> Space {
    let ns: &'static [(usize, usize)] = if th { &[(1, 1), (2, 3), (63, 2), (64, 2), (65, 2), (127, 1), (128, 1), (129, 3), (255, 1), (256, 1), (257, 1), (1000, 1), (1025, 2), (2, 300), (3, 1030), (5, 70), (4100, 1), (2, 20000), (70000, 1)] } else { &[(1, 1), (2, 3), (63, 2), (64, 2), (65, 2), (127, 1), (129, 3), (255, 1), (256, 1), (257, 1), (1025, 1), (2, 300), (3, 1030), (5, 70)] };
    Space::new("rows", ns.len() as u64 * 3, move |i, cx| {
        let (n, k) = ns[(i / 3) as usize];
        let mut p = row(n, k);
        if i % 3 == 1 { p.reverse(); }
        if i % 3 == 2 { for r in p.iter_mut() { r.outer[0].pts.reverse(); } }
        let t = build(cx, &p)?;
        let v = view(&t, |d| *d)?;
        retraces(&v, &p)?;
        cx.state(&(n, k, i % 3));
        cx.validated += 1;
        Ok(())
    }, move |i| format!("row of {:?} regions and segments per side, variant {}", ns[(i / 3) as usize], i % 3))
}

/// C03 on one topology of a map: regions' faces give the true neighbours.
pub fn sharing(v: &View<u32>, c: &Complex, l: &LMap) -> R {
    v.structure()?;
    v.incidence(false)?;
    v.canonical_dir()?;
    v.stored_once()?;
    // every boundary segment between two regions is traversed by rings of exactly these two
    let mut flat: Vec<((P, P), u32)> = vec![];
    for (i, (id, _)) in l.regions.iter().enumerate() {
        for (a, b) in c.boundary(&l.faces(i)) {
            let (a, b) = (c.verts[a], c.verts[b]);
            let k = (a.min(b), a.max(b));
            flat.push((k, *id));
        }
    }
    flat.sort_by_key(|x| x.0); // stable: ids stay in order
    let mut want: Vec<((P, P), Vec<u32>)> = vec![];
    for (k, id) in flat { match want.last_mut() { Some(w) if w.0 == k => w.1.push(id), _ => want.push((k, vec![id])) } }
    for (i, e) in v.edges.iter().enumerate() {
        let mut ids: Vec<u32> = v.slots[i].iter().flatten().map(|s| v.regions[s.0].data).collect();
        ids.sort_unstable();
        for w in e.windows(2) {
            let k = (w[0].min(w[1]), w[0].max(w[1]));
            if let Ok(x) = want.binary_search_by_key(&k, |x| x.0).map(|i| &want[i]) {
                if x.1 != ids { return Err(format!("edge {:?} lists regions {:?} but its segment {:?} separates {:?}", e, ids, k, x.1)); }
            }
        }
    }
    Ok(())
}

fn c03(m: &MapCfg, l: &LMap, _t: u8, p: &[PRegion], cx: &mut Cx) -> R {
    let t = build(cx, p)?;
    let v = view32(&t)?;
    sharing(&v, &m.cx, l).map_err(|e| format!("after building: {}", e))?;
    let n = normalize(cx, &t)?;
    let v = view32(&n)?;
    cx.state(&v);
    sharing(&v, &m.cx, l).map_err(|e| format!("after normalizing: {} -- {}", e, v.show()))?;
    cx.validated += 2;
    Ok(())
}

/// Regions, data and exact coverage of a view against the map (clipped by `masks`).
pub fn covers(v: &View<u32>, c: &Complex, l: &LMap, masks: &[M]) -> R {
    let mut k = 0;
    for (i, (id, _)) in l.regions.iter().enumerate() {
        let want = c.chain_clipped(l.faces(i).into_iter(), masks).ok_or("harness: crossing not integral")?;
        if want.is_empty() { continue; }
        if k >= v.regions.len() || v.regions[k].data != *id {
            return Err(format!("expected region {} at position {}, found regions {:?}", id, k, v.regions.iter().map(|r| r.data).collect::<Vec<_>>()));
        }
        let got = v.chain(k);
        if got != want { return Err(format!("region {} covers something else: outline {} expected {}", id, got.show(), want.show())); }
        k += 1;
    }
    if k != v.regions.len() { return Err(format!("unexpected extra regions: {:?}", v.regions.iter().map(|r| r.data).collect::<Vec<_>>())); }
    Ok(())
}

fn c05(m: &MapCfg, l: &LMap, _t: u8, p: &[PRegion], cx: &mut Cx) -> R {
    let t = build(cx, p)?;
    let n = normalize(cx, &t)?;
    let v = view32(&n)?;
    cx.state(&v);
    v.connected()?;
    covers(&v, &m.cx, l, &[]).map_err(|e| format!("{} -- normalized: {}", e, v.show()))?;
    // no corner and no vertex of the outline is lost: the very same segments
    for (i, (id, _)) in l.regions.iter().enumerate() {
        let mut want: Vec<(P, P)> = m.cx.boundary(&l.faces(i)).into_iter().map(|(a, b)| (m.cx.verts[a], m.cx.verts[b])).collect();
        let mut got: Vec<(P, P)> = vec![];
        for r in v.regions[i].outer.iter().chain(&v.regions[i].inner) { for &de in r { for w in v.dpoints(de).windows(2) { got.push((w[0], w[1])); } } }
        want.sort_unstable(); got.sort_unstable();
        if want != got { return Err(format!("region {} outline is {:?}, expected {:?}", id, got, want)); }
    }
    cx.validated += 1;
    Ok(())
}

/// C06: the documented rules.
pub fn normal_form(v: &View<u32>) -> R {
    let region_pair = |e: usize| { let mut r: Vec<usize> = v.slots[e].iter().flatten().map(|s| s.0).collect(); r.sort_unstable(); r };
    // how many boundary segments meet at a point
    let mut ends: Vec<P> = vec![];
    for e in &v.edges { for w in e.windows(2) { ends.push(w[0]); ends.push(w[1]); } }
    ends.sort_unstable();
    let deg = |p: P| ends.partition_point(|&q| q <= p) - ends.partition_point(|&q| q < p);
    let mut at: Vec<(P, usize)> = v.edges.iter().enumerate().flat_map(|(i, e)| e.iter().map(move |&p| (p, i))).collect();
    at.sort_unstable(); at.dedup();
    let edges_at = |p: P| at[at.partition_point(|x| x.0 < p)..at.partition_point(|x| x.0 <= p)].iter().map(|x| x.1);
    let on_other = |p: P, e: usize| edges_at(p).any(|i| i != e);
    for (id, r) in v.rings() {
        let a = area2(&v.trace(r));
        if (id.1 && a >= 0) || (!id.1 && a <= 0) { return Err(format!("ring {:?} {:?} winds the wrong way", id, v.trace(r))); }
        // longest possible edges
        for k in 0..r.len() {
            let (e, f) = (r[k], r[(k + 1) % r.len()]);
            if r.len() > 1 && region_pair(e.0) == region_pair(f.0) {
                let at = *v.dpoints(e).last().unwrap();
                if deg(at) == 2 { return Err(format!("ring {:?}: edges {:?} and {:?} lie between the same regions and could be one", id, v.dpoints(e), v.dpoints(f))); }
            }
        }
        // start
        let first = v.dpoints(r[0])[0];
        let min_node = r.iter().map(|&e| v.dpoints(e)[0]).min().unwrap();
        if first != min_node { return Err(format!("ring {:?} starts at {:?}, its leftmost node is {:?}", id, first, min_node)); }
        if r.len() == 1 {
            let ps = v.trace(r);
            let free = !ps.iter().any(|&p| on_other(p, r[0].0)) && { let mut q = ps.clone(); q.sort_unstable(); q.windows(2).all(|w| w[0] != w[1]) };
            if free && first != *ps.iter().min().unwrap() { return Err(format!("island {:?} does not start at its leftmost point", ps)); }
        } else {
            // an untouched island is a single edge
            let ps = v.trace(r);
            let mut ids: Vec<usize> = r.iter().map(|e| e.0).collect();
            ids.sort_unstable();
            let touched = ps.iter().any(|&p| edges_at(p).any(|i| ids.binary_search(&i).is_err()));
            let mut pairs: Vec<Vec<usize>> = r.iter().map(|e| region_pair(e.0)).collect();
            pairs.dedup();
            let mut q = ps.clone(); q.sort_unstable();
            if !touched && pairs.len() == 1 && q.windows(2).all(|w| w[0] != w[1]) { return Err(format!("untouched island {:?} is made of {} edges", ps, r.len())); }
        }
    }
    for (i, r) in v.regions.iter().enumerate() {
        for rings in [&r.outer, &r.inner] {
            let starts: Vec<P> = rings.iter().map(|x| v.dpoints(x[0])[0]).collect();
            if starts.windows(2).any(|w| w[0] > w[1]) { return Err(format!("rings of region {} are not ordered by first point: {:?}", i, starts)); }
        }
        let mut used: Vec<usize> = r.outer.iter().chain(&r.inner).flatten().map(|d| d.0).collect();
        used.sort_unstable();
        if used.windows(2).any(|w| w[0] == w[1]) { return Err(format!("two rings of region {} share an edge", i)); }
    }
    Ok(())
}

fn c06(_m: &MapCfg, _l: &LMap, _t: u8, p: &[PRegion], cx: &mut Cx) -> R {
    let t = build(cx, p)?;
    let n = normalize(cx, &t)?;
    let v = view32(&n)?;
    cx.state(&v);
    v.structure()?;
    normal_form(&v).map_err(|e| format!("{} -- normalized: {}", e, v.show()))?;
    cx.validated += 1;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C02", level: "model_checking", spaces: |th| family(if th { 2 } else { 1 }).iter().chain(&larger(if th { 3 } else { 2 })).chain(&bulk(1)).map(|m| map_space(m, "", c02)).chain(family(th as u8).iter().map(written_space)).chain([rows_space(th)]).collect() },
        Prop { id: "C03", level: "model_checking", spaces: |th| family(if th { 2 } else { 1 }).iter().chain(&larger(if th { 3 } else { 2 })).chain(&bulk(1)).map(|m| map_space(m, "", c03)).chain(family(th as u8).iter().map(c03_written_space)).collect() },
        Prop { id: "C05", level: "model_checking", spaces: |th| family(if th { 2 } else { 1 }).iter().chain(&larger(if th { 3 } else { 2 })).chain(&bulk(1)).map(|m| map_space(m, "", c05)).collect() },
        Prop { id: "C06", level: "model_checking", spaces: |th| family(if th { 2 } else { 1 }).iter().chain(&larger(if th { 3 } else { 2 })).chain(&bulk(1)).map(|m| map_space(m, "", c06)).collect() },
    ]
}
