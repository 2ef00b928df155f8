//! C04 and C19: histories of operations; C07: presentations.
use crate::alloc::placed;
use crate::core::*;
use crate::geom::*;
use crate::maps::*;
use crate::wf::*;
use crate::Prop;
use std::fmt::Debug;
use std::hash::Hash;
use topogeo::clip::clip_topology;
use topogeo::geo::Region;
use topogeo::topology::{Topology, TopologyBuilder};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op { Norm, Simp(u64), Clip(M) }

/// Kinds of region data: what a history must preserve does not depend on the size of `Data`.
pub trait Data: Clone + 'static { type K: Debug + Eq + Hash + Clone; fn mk(n: u32) -> Self; fn key(&self) -> Self::K; fn k(n: u32) -> Self::K { Self::mk(n).key() } }
impl Data for u32 { type K = u32; fn mk(n: u32) -> u32 { n } fn key(&self) -> u32 { *self } }
impl Data for u8 { type K = u8; fn mk(n: u32) -> u8 { n as u8 } fn key(&self) -> u8 { *self } }
impl Data for () { type K = (); fn mk(_: u32) {} fn key(&self) {} }
impl Data for String { type K = String; fn mk(n: u32) -> String { format!("region {}", n) } fn key(&self) -> String { self.clone() } }
impl Data for [u64; 17] { type K = u64; fn mk(n: u32) -> Self { [n as u64; 17] } fn key(&self) -> u64 { if self.iter().all(|x| x == &self[0]) { self[0] } else { u64::MAX } } }

fn regions<D: Data>(p: &[PRegion]) -> Vec<Region<D>> { p.iter().map(|r| to_region(r, D::mk(r.data))).collect() }
fn do_build<D: Data>(rs: Vec<Region<D>>) -> Topology<D> { let mut b = TopologyBuilder::new(); for r in rs { b.add_region(r); } b.into_topology() }

/// Moves a value to other places in memory (a topology must not refer to its own location).
fn shuffle<T>(t: T) -> T { let mut v = Vec::with_capacity(1); v.push(Box::new(t)); v.reserve(9); *v.pop().unwrap() }

fn apply<D: Data>(t: Topology<D>, op: Op) -> Topology<D> {
    match op {
        Op::Norm => topogeo::normalize(&t),
        Op::Simp(a) => topogeo::simplify(t, a),
        Op::Clip(m) => clip_topology(&t, &m.real()),
    }
}

/// Outside the documented domain: distinct boundaries that came to lie on each other (through simplification or the
/// rounding of crossings) are not something a topology can express, and rebuilding from it is not claimed.
pub fn in_domain<K>(v: &View<K>, op: Op) -> bool { op != Op::Norm || v.stored_once().is_ok() }

fn run_history<D: Data>(p: &[PRegion], ops: &[Op], cx: &mut Cx) -> R {
    let rs = regions::<D>(p);
    let mut t = shuffle(cx.call("building", || do_build(rs))?);
    let mut k = 0;
    loop {
        let v = view(&t, |d| d.key()).and_then(|v| { v.structure()?; Ok(v) }).map_err(|e| format!("after building and {:?}: {}", &ops[..k], e))?;
        let mut allowed = p.iter().map(|r| D::k(r.data));
        for r in &v.regions { if !allowed.any(|a| a == r.data) { return Err(format!("after {:?}: region data {:?} is wrong or out of order", &ops[..k], r.data)); } }
        cx.state(&v);
        if k == ops.len() { break; }
        if !in_domain(&v, ops[k]) { cx.note("left the domain: coinciding boundaries"); return Ok(()); }
        let op = ops[k];
        t = shuffle(cx.call("", || apply(t, op)).map_err(|e| format!("{:?} after {:?}:{} -- on {}", op, &ops[..k], e, v.show()))?);
        k += 1;
    }
    cx.validated += 1;
    Ok(())
}

/// Every sequence of exactly `depth` operations (shorter ones are their prefixes and are checked on the way).
pub fn ops_for(m: &MapCfg, full: bool) -> Vec<Op> {
    let mut cs: Vec<i64> = m.cx.verts.iter().map(|p| p.0).collect(); cs.sort_unstable();
    let (lo, hi) = (cs[0], cs[cs.len() - 1]);
    let mut cy: Vec<i64> = m.cx.verts.iter().map(|p| p.1).collect(); cy.sort_unstable();
    let mid = cs[cs.len() / 2];
    let scale = ((hi - lo) as u64).pow(2);
    let mut v = vec![Op::Norm, Op::Simp(scale / 4), Op::Simp(u64::MAX), Op::Clip(M::MinX(lo + (hi - lo) / 3)), Op::Clip(M::MaxX(mid)), Op::Clip(M::MaxY(cy[cy.len() - 1] - 1)), Op::Clip(M::MinY(cy[cy.len() / 2]))];
    if full { v.extend([Op::Simp(0), Op::Simp(scale / 20), Op::Clip(M::MinX(hi)), Op::Clip(M::MaxX(hi)), Op::Clip(M::MaxX(hi - 1)), Op::Clip(M::MinY(cy[0] + 1))]); }
    v
}

fn hist_space<D: Data>(tag: &str, m: Map, depth: u32, full: bool, f: fn(&[PRegion], &[Op], &mut Cx) -> R) -> Space {
    let ops = ops_for(&m, full);
    let n = ops.len() as u64;
    let (a, b) = (m.clone(), m.clone());
    let dec = move |i: u64| { let mut d = Dec(i); let h: Vec<Op> = (0..depth).map(|_| ops[d.take(n) as usize]).collect(); (h, d.0) };
    let dec2 = dec.clone();
    let _ = std::marker::PhantomData::<D>;
    Space::new(format!("{}depth{}{}/{}", tag, depth, if full { "full" } else { "" }, m.name), m.size() * pow(n, depth), move |i, cx| { let (h, k) = dec(i); let (_, _, p) = a.decode(k); f(&p, &h, cx) },
        move |i| { let (h, k) = dec2(i); format!("history {:?} on {}", h, b.describe(k)) })
}

fn c04_spaces(th: bool) -> Vec<Space> {
    use Diag::*;
    let s = |m, d, full| hist_space::<u32>("", m, d, full, run_history::<u32>);
    let mut v = vec![
        s(cfg(sq(2, 2), "0AaB", &[0, 3]), 3, false),
        s(cfg(tri(1, 1, Cross), "0AaB", &[0, 2]), 3, true),
        s(cfg(sq(3, 3), "0A", &[0, 2]), 3, false),
        s(cfg(tri(2, 1, Alt), "0AaB", &[0]), 3, false),
        s(cfg(tri(2, 1, Cross), "0A", &[0, 1, 2]), 3, false),
        s(cfg(tri(2, 1, Cross), "0A", MIXED), 3, false),
        s(cfg(huge(Down), "0A", &[0]), 3, false),
        s(cfg(skew(Alt), "0A", &[0]), 3, false),
        s(cfg(sq(3, 2), "0AB", &[0]), 2, true),
        s(cfg(sq(2, 2), "0AB", &[0]), 4, false),
        hist_space::<()>("unit ", cfg(sq(2, 2), "0AaB", &[0]), 2, false, run_history::<()>),
        hist_space::<u8>("u8 ", cfg(sq(2, 2), "0AaB", &[0]), 2, false, run_history::<u8>),
        hist_space::<String>("string ", cfg(sq(2, 2), "0AaB", &[0]), 2, false, run_history::<String>),
        hist_space::<[u64; 17]>("big ", cfg(sq(2, 2), "0AaB", &[0]), 2, false, run_history::<[u64; 17]>),
        hist_space::<String>("string ", cfg(sq(3, 2), "0ABC", &[0]), 1, true, run_history::<String>),
    ];
    for m in larger(if th { 3 } else { 2 }) { v.push(s(m, 1, true)); }
    for m in bulk(0) { v.push(s(m, 1, true)); }
    for m in larger(if th { 1 } else { 0 }) { v.push(s(m, 2, th)); }
    if th {
        v.extend(vec![
            s(cfg(sq(3, 2), "0AaB", &[0, 1, 3]), 3, true),
            s(cfg(sq(3, 3), "0AB", &[0]), 3, false),
            s(cfg(tri(2, 1, Cross), "0AB", &[0]), 3, false),
            s(cfg(tri(2, 2, Alt), "0AB", &[0]), 3, false),
            s(cfg(sq(2, 2), "0AaB", &[0]), 5, false),
            s(cfg(tri(1, 1, Cross), "0AB", &[0]), 5, false),
            s(cfg(sq(3, 3), "0A", &[0, 1, 2, 3]), 4, false),
            s(cfg(skew(Up), "0AB", &[0]), 3, true),
            s(cfg(huge(Alt), "0AB", &[0]), 3, true),
        ]);
    }
    v
}

// ---- C19
fn run_placed<D: Data>(p: &[PRegion], ops: &[Op], mode: u8, half: usize, cx: &mut Cx) -> Result<Vec<View<D::K>>, String> {
    let mut out: Vec<View<D::K>> = vec![];
    let (r, transitions) = {
        let mut inner = Cx::new();
        let r = placed(mode, half, || -> R {
            // earlier work of another size
            if mode == 2 { let w = regions::<D>(&p[..p.len().min(1)]); inner.call("building", || do_build(w))?; }
            let rs = regions::<D>(p);
            let mut t = inner.call("building", || do_build(rs))?;
            for k in 0..=ops.len() {
                let v = view(&t, |d| d.key())?;
                if k < ops.len() && !in_domain(&v, ops[k]) { out.push(v); return Ok(()); }
                if k == ops.len() { out.push(v); return Ok(()); }
                match ops[k] {
                    Op::Simp(a) => { t = inner.call("simplifying", || topogeo::simplify(t, a))?; }
                    op => {
                        let n = inner.call("normalizing or clipping", || match op { Op::Clip(m) => clip_topology(&t, &m.real()), _ => topogeo::normalize(&t) })?;
                        let after = view(&t, |d| d.key())?;
                        if after != v { return Err(format!("{:?} changed its borrowed input from {} to {}", op, v.show(), after.show())); }
                        t = n;
                    }
                }
                out.push(v);
            }
            Ok(())
        });
        (r.map_err(|e| format!("{}", e)), inner.transitions)
    };
    cx.transitions += transitions;
    r?;
    // copy out of the arena
    let copy = out.clone();
    Ok(copy)
}

fn c19_case<D: Data>(p: &[PRegion], ops: &[Op], cx: &mut Cx) -> R {
    let a = run_placed::<D>(p, ops, 0, 0, cx)?;
    let a2 = run_placed::<D>(p, ops, 0, 0, cx)?;
    let b = run_placed::<D>(p, ops, 1, 0, cx)?;
    let c = run_placed::<D>(p, ops, 2, 1, cx)?;
    for (what, x) in [("a second time", &a2), ("with ascending addresses", &b), ("with descending addresses", &c)] {
        for (k, (u, w)) in a.iter().zip(x.iter()).enumerate() {
            if u != w { return Err(format!("the same history {:?} run {} gave a different result: {} edges {:?} instead of {} edges {:?}", &ops[..k], what, w.show(), w.edges, u.show(), u.edges)); }
        }
        if a.len() != x.len() { return Err(format!("the same history {:?} run {} took {} steps instead of {}", ops, what, x.len(), a.len())); }
    }
    for v in &a { cx.state(v); }
    cx.validated += 4;
    Ok(())
}

fn c19_spaces(th: bool) -> Vec<Space> {
    use Diag::*;
    let s = |m, d, full| hist_space::<u32>("", m, d, full, c19_case::<u32>);
    let mut v = vec![
        s(cfg(sq(2, 2), "0ABC", &[0, 3]), 2, false),
        s(cfg(tri(1, 1, Cross), "0AaB", &[0, 2]), 2, true),
        s(cfg(sq(3, 3), "0A", &[0, 2, 3]), 2, false),
        s(cfg(tri(2, 1, Cross), "0A", &[0]), 2, false),
        s(cfg(sq(3, 2), "0AaB", &[0]), 2, false),
        s(cfg(sq(3, 3), "0AB", &[0]), 1, false),
        s(cfg(skew(Alt), "0AB", &[0]), 1, false),
        s(cfg(huge(Down), "0AB", &[0]), 1, false),
        s(cfg(sq(2, 2), "0AaB", &[0]), 3, false),
        hist_space::<()>("unit ", cfg(sq(2, 2), "0AaB", &[0]), 2, false, c19_case::<()>),
        hist_space::<String>("string ", cfg(sq(2, 2), "0AaB", &[0]), 2, false, c19_case::<String>),
    ];
    for m in larger(if th { 3 } else { 2 }) { v.push(s(m, 1, th)); }
    for m in bulk(0) { v.push(s(m, 1, false)); }
    for m in larger(if th { 1 } else { 0 }) { v.push(s(m, 2, false)); }
    if th {
        v.extend(vec![
            s(cfg(sq(3, 3), "0AB", &[0, 3]), 2, false),
            s(cfg(sq(3, 2), "0AaB", &[0, 1, 3]), 3, false),
            s(cfg(tri(2, 2, Alt), "0AB", &[0, 1]), 2, false),
            s(cfg(skew(Alt), "0AaB", &[0]), 2, false),
            s(cfg(sq(4, 4), "0A", &[0, 1]), 1, true),
            s(cfg(tri(1, 1, Cross), "0AaB", &[0, 2]), 4, false),
        ]);
    }
    v
}

// ---- C07
/// Regions, rings and edges without the accidental order of edges in the topology.
type Canon = (Vec<(u32, Vec<Vec<Vec<P>>>, Vec<Vec<Vec<P>>>)>, Vec<(Vec<P>, Vec<u32>)>);
pub fn canon(v: &View<u32>) -> Canon {
    let rings = |rs: &Vec<VRing>| { rs.iter().map(|r| r.iter().map(|&d| v.dpoints(d)).collect()).collect() };
    let regs = v.regions.iter().map(|r| (r.data, rings(&r.outer), rings(&r.inner))).collect();
    let mut es: Vec<(Vec<P>, Vec<u32>)> = v.edges.iter().zip(&v.slots).map(|(e, s)| { let mut w: Vec<u32> = s.iter().flatten().map(|x| v.regions[x.0].data).collect(); w.sort_unstable(); (e.clone(), w) }).collect();
    es.sort();
    (regs, es)
}
fn norm_of(p: &[PRegion], cx: &mut Cx) -> Result<Canon, String> {
    let t = crate::topo::build(cx, p)?;
    let n = crate::topo::normalize(cx, &t)?;
    let v = view32(&n)?;
    v.structure()?;
    Ok(canon(&v))
}
fn each_ring(p: &mut [PRegion], mut f: impl FnMut(usize, &mut PRing)) { let mut i = 0; for r in p.iter_mut() { for x in r.outer.iter_mut().chain(r.inner.iter_mut()) { f(i, x); i += 1; } } }
fn variants(p: &[PRegion], deep: bool) -> Vec<(String, Vec<PRegion>)> {
    let mut out = vec![];
    let mut lens = vec![];
    each_ring(&mut p.to_vec(), |_, r| lens.push(r.pts.len()));
    let n = lens.len();
    // start points: all rings together, and each ring on its own
    let total: usize = lens.iter().sum(); // of very large maps only a few variants
    let maxl = lens.iter().cloned().max().unwrap_or(0);
    for k in (1..maxl).filter(|k| total < 5000 || [1, 64, maxl - 1].contains(k)) { let mut q = p.to_vec(); each_ring(&mut q, |_, r| { let l = r.pts.len(); r.pts.rotate_left(k % l) }); out.push((format!("all rings started {} points later", k), q)); }
    if n > 1 && total < 5000 { for i in 0..n { for k in 1..lens[i] { if !deep && k > 2 { break; } let mut q = p.to_vec(); each_ring(&mut q, |j, r| if i == j { r.pts.rotate_left(k) }); out.push((format!("ring {} started {} points later", i, k), q)); } } }
    // directions
    let sets: Vec<Vec<bool>> = if n <= 4 { (1..1u64 << n).map(|m| (0..n).map(|i| m >> i & 1 == 1).collect()).collect() }
        else { (0..n).filter(|_| total < 5000).map(|k| (0..n).map(|i| i == k).collect()).chain([vec![true; n], (0..n).map(|i| i % 2 == 0).collect(), (0..n).map(|i| i % 3 == 1).collect()]).collect() };
    for m in sets { let mut q = p.to_vec(); each_ring(&mut q, |i, r| if m[i] { r.pts.reverse() }); out.push((format!("rings {:?} reversed", (0..n).filter(|&i| m[i]).collect::<Vec<_>>()), q)); }
    // order of rings
    let most = p.iter().map(|r| r.outer.len().max(r.inner.len())).max().unwrap_or(0);
    if most > 1 {
        let mut q = p.to_vec(); for r in q.iter_mut() { r.outer.reverse(); r.inner.reverse(); } out.push(("rings listed backwards".into(), q));
        for k in (1..most).filter(|k| total < 5000 || [1, 64, most - 1].contains(k)) { let mut q = p.to_vec(); for r in q.iter_mut() { let (a, b) = (r.outer.len(), r.inner.len()); if a > 0 { r.outer.rotate_left(k % a); } if b > 0 { r.inner.rotate_left(k % b); } } out.push((format!("ring lists rotated by {}", k), q.clone()));
            each_ring(&mut q, |i, r| { let l = r.pts.len(); r.pts.rotate_left((i + 1) % l); if i % 2 == 0 { r.pts.reverse(); } }); out.push((format!("ring lists rotated by {}, rings turned", k), q)); }
    }
    out
}

fn c07(mc: &MapCfg, l: &LMap, _t: u8, p: &[PRegion], deep: bool, cx: &mut Cx) -> R {
    let t = crate::topo::build(cx, p)?;
    let n = crate::topo::normalize(cx, &t)?;
    let v = view32(&n)?;
    v.structure()?;
    let c = canon(&v);
    cx.state(&c);
    // idempotent
    let n2 = crate::topo::normalize(cx, &n)?;
    let v2 = view32(&n2)?;
    v2.structure()?;
    if canon(&v2) != c { return Err(format!("normalizing again changed {} to {}", v.show(), v2.show())); }
    cx.validated += 1;
    for (what, q) in variants(p, deep) {
        let d = norm_of(&q, cx)?;
        if d != c { return Err(format!("{}: normalized to {:?} instead of {:?} (presented as {})", what, d, c, show_regions(&q))); }
        cx.validated += 1;
    }
    if !mc.cx.pinched(&l.all_faces()) {
        // as pieces: every face, every group, or one outline
        let whole = LMap { regions: (0..l.regions.len()).map(|i| (l.regions[i].0, vec![l.faces(i)])).collect() };
        for (what, q) in [("one outline", whole.present(&mc.cx, 0)), ("face by face", l.present_faces(&mc.cx)), ("groups", l.present(&mc.cx, 0))] {
            let d = norm_of(&q, cx)?;
            if d != c { return Err(format!("presented as {}: normalized to {:?} instead of {:?}", what, d, c)); }
            cx.validated += 1;
        }
        cx.note("pieces compared");
    } else { cx.note("touches itself: pieces not compared"); }
    Ok(())
}

fn c07_spaces(th: bool) -> Vec<Space> {
    use Diag::*;
    let s = |m: Map, deep: bool| { let (a, b) = (m.clone(), m.clone());
        Space::new(m.name.clone(), m.size(), move |i, cx| { let (l, t, p) = a.decode(i); c07(&a, &l, t, &p, deep, cx) }, move |i| b.describe(i)) };
    let mut v: Vec<Space> = family(0).into_iter().map(|m| s(m, th)).collect();
    v.extend(larger(if th { 2 } else { 1 }).into_iter().chain(bulk(0)).map(|m| s(m, false)));
    if th { v.extend(family(2).into_iter().skip(family(0).len()).map(|m| s(m, false))); }
    else { v.push(s(cfg(sq(4, 4), "0A", &[0]), false)); v.push(s(cfg(sq(3, 2), "0ABC", &[0]), true)); v.push(s(cfg(tri(2, 1, Cross), "0AB", &[0, 2]), false)); }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C04", level: "model_checking", spaces: c04_spaces },
        Prop { id: "C07", level: "model_checking", spaces: c07_spaces },
        Prop { id: "C19", level: "model_checking", spaces: c19_spaces },
    ]
}
