//! C10, C11, C12: clipping.
use crate::core::*;
use crate::geom::*;
use crate::maps::*;
use crate::topo::{build, covers, normalize};
use crate::wf::*;
use crate::Prop;
use topogeo::clip::clip_topology;
use topogeo::clip::edge::clip_edge;
use topogeo::topology::Topology;

pub fn near(m: M, p: P, q: P, x: P) -> bool {
    // x on the line, within the segment's extent, less than one unit from the exact crossing
    if m.side(x) != 0 { return false; }
    let free = |r: P| if m.axis() == 0 { r.1 } else { r.0 };
    let (a, b, f) = (free(p), free(q), free(x));
    if f < a.min(b) || f > a.max(b) { return false; }
    let (n, d) = m.cross(p, q);
    (f as i128 * d - n).abs() < d
}

enum Want { At(P), Cross(P, P) }

fn want_path(ps: &[P], m: M) -> Vec<Want> {
    let mut out = vec![];
    if ps.len() < 2 { return out; }
    for i in 0..ps.len() {
        if m.side(ps[i]) <= 0 { continue; }
        if i > 0 { let s = m.side(ps[i - 1]); if s < 0 { out.push(Want::Cross(ps[i - 1], ps[i])); } else if s == 0 { out.push(Want::At(ps[i - 1])); } }
        out.push(Want::At(ps[i]));
        if i + 1 < ps.len() { let s = m.side(ps[i + 1]); if s < 0 { out.push(Want::Cross(ps[i], ps[i + 1])); } else if s == 0 { out.push(Want::At(ps[i + 1])); } }
    }
    out
}

fn check_clip_path(ps: &[P], m: M, cx: &mut Cx) -> R {
    let pts: Vec<topogeo::geo::Point> = ps.iter().map(|&p| pt(p)).collect();
    let mask = m.real();
    let got: Vec<P> = cx.call("clipping a path", || clip_edge(&pts, &mask))?.iter().map(unpt).collect();
    let fail = |e: String| Err(format!("{} -- {:?} clipped by {:?} gives {:?}", e, ps, m, got));
    if ps.len() >= 2 && ps.iter().all(|&p| m.side(p) > 0) && got != ps { return fail("a path inside the mask changed".into()); }
    if let Some(p) = got.iter().find(|&&p| m.side(p) < 0) { return fail(format!("{:?} is outside", p)); }
    let want = want_path(ps, m);
    let mut j = 0;
    for w in &want {
        let hit = |x: P| match *w { Want::At(p) => p == x, Want::Cross(p, q) => near(m, p, q, x) };
        if j < got.len() && hit(got[j]) { j += 1; }
        else if j > 0 && hit(got[j - 1]) {}
        else { return fail(match *w { Want::At(p) => format!("expected {:?} at position {}", p, j), Want::Cross(p, q) => format!("expected the crossing of {:?}-{:?} at position {}", p, q, j) }); }
    }
    if j != got.len() { return fail(format!("unexpected point at position {}", j)); }
    cx.state(&(m, &got));
    cx.validated += 1;
    if got.is_empty() { cx.note("nothing left") } else if got == ps { cx.note("unchanged") } else { cx.note("cut") }
    Ok(())
}

fn path_space(name: String, pts: Vec<P>, k: usize, masks: Vec<M>) -> Space {
    let n = masks.len() as u64;
    let c = pts.len() as u64;
    let dec = move |i: u64| { let mut d = Dec(i); let m = masks[d.take(n) as usize]; ((0..k).map(|_| *d.pick(&pts)).collect::<Vec<P>>(), m) };
    let dec2 = dec.clone();
    Space::new(name, n * pow(c, k as u32), move |i, cx| { let (p, m) = dec(i); check_clip_path(&p, m, cx) }, move |i| { let (p, m) = dec2(i); format!("path {:?} mask {:?}", p, m) })
}
fn lattice(xs: &[i64], ys: &[i64]) -> Vec<P> { xs.iter().flat_map(|&x| ys.iter().map(move |&y| (x, y))).collect() }
fn mks(vs: &[i64]) -> Vec<M> { vs.iter().flat_map(|&v| (0..4).map(move |k| M::kind(k, v))).collect() }

/// Long paths: where the point i of n lies relative to the mask, in ten patterns.
fn long_path(n: usize, pat: u64, m: M) -> Vec<P> {
    let d = |i: usize| -> i64 { match pat {
        0 => if i + 1 == n { -2 } else { 1 },
        1 => if i + 1 == n { 3 } else { -1 },
        2 => if i % 2 == 0 { 2 } else { -1 },
        3 => [2, 0][i % 2],
        4 => [2, 1, -3, -1][i % 4],
        5 => [0, 0, 0, -1][(i % 4).min(if i % 97 == 96 { 3 } else { 2 })],
        6 => if i == n / 2 { -3 } else { 2 },
        7 => [-2, -1, 0, 1, 2][(i * i / 3 + i / 7) % 5] * 3,
        8 => [1, 5, 9, 9, 5, 0, -1][i % 7],
        _ => if (i / 16) % 2 == 0 { 4 } else { -4 },
    } };
    let sign = match m { M::MinX(_) | M::MinY(_) => 1, _ => -1 };
    (0..n).map(|i| { let (a, f) = (m.at() + sign * d(i), 7 * i as i64 % 4_000_000_000); if m.axis() == 0 { (a, f) } else { (f, a) } }).collect()
}
fn long_paths(name: &str, ns: Vec<usize>) -> Space {
    let size = ns.len() as u64 * 40;
    let dec = move |i: u64| { let mut d = Dec(i); let m = M::kind(d.take(4), 1000); let p = d.take(10); let n = ns[d.0 as usize]; (n, p, m) };
    let dec2 = dec.clone();
    Space::new(name, size, move |i, cx| { let (n, p, m) = dec(i); check_clip_path(&long_path(n, p, m), m, cx) }, move |i| { let (n, p, m) = dec2(i); format!("path of {} points, pattern {}, mask {:?}", n, p, m) })
}

fn c10_spaces(th: bool) -> Vec<Space> {
    let r: Vec<i64> = (0..=12).collect();
    let r2: Vec<i64> = (0..=20).collect();
    let ext = [0, 1, 2147483647, 2147483648, 4294967294, 4294967295];
    let mx = mks(&[0, 1, 2, 1431655765, 2147483647, 2147483648, 3000000001, 4294967293, 4294967294, 4294967295]);
    let mut v = vec![
        path_space("empty".into(), vec![(1, 1)], 0, mks(&[0, 1, 2])),
        path_space("one-point".into(), lattice(&r, &[3]), 1, mks(&r)),
        path_space("two-points-13x13".into(), lattice(&r, &r), 2, mks(&r)),
        path_space("three-points-7x5".into(), lattice(&[0, 2, 3, 5, 6, 9, 10], &[0, 2, 3, 7, 10]), 3, mks(&[0, 1, 2, 3, 4, 5, 6, 9, 10, 11])),
        path_space("four-points-4x3".into(), lattice(&[2, 4, 6, 9], &[1, 4, 9]), 4, mks(&[1, 2, 3, 4, 5, 6, 7, 9, 10])),
        path_space("five-points-3x3".into(), lattice(&[2, 4, 7], &[2, 5, 7]), 5, mks(&[2, 3, 4, 5, 6, 7])),
        path_space("seven-points-3x1".into(), lattice(&[2, 4, 7], &[4]), 7, vec![M::MinX(4), M::MaxX(4), M::MinX(3), M::MaxX(5)]),
        path_space("seven-points-1x3".into(), lattice(&[4], &[2, 4, 7]), 7, vec![M::MinY(4), M::MaxY(4), M::MinY(3), M::MaxY(5)]),
        long_paths("long-to-300", (0..=300).collect()),
        long_paths("very-long", vec![511, 512, 513, 1023, 1025, 4095, 4097, 32769, 65535, 65536, 65537, 65538, 131073, 200000]),
        path_space("extreme-two".into(), lattice(&ext, &ext), 2, mx.clone()),
        path_space("extreme-three".into(), lattice(&ext, &ext), 3, mx.clone()),
    ];
    v.extend(vec![
        long_paths("long-to-3000", (0..=3000).collect()),
        path_space("two-points-21x21".into(), lattice(&r2, &r2), 2, mks(&r2)),
        path_space("five-points-4x3".into(), lattice(&[2, 4, 6, 9], &[1, 4, 9]), 5, mks(&[1, 2, 3, 4, 5, 6, 7, 9, 10])),
        path_space("six-points-3x3".into(), lattice(&[2, 4, 7], &[2, 5, 7]), 6, mks(&[2, 3, 4, 5, 6, 7])),
        path_space("nine-points-3x1".into(), lattice(&[2, 4, 7], &[4]), 9, mks(&[3, 4, 5])),
        path_space("nine-points-1x3".into(), lattice(&[4], &[2, 4, 7]), 9, mks(&[3, 4, 5])),
        path_space("extreme-four".into(), lattice(&[0, 1, 2147483648, 4294967295], &[0, 2147483647, 4294967294, 4294967295]), 4, mx.clone()),
    ]);
    if th {
        let r3: Vec<i64> = (0..=32).collect();
        v.extend(vec![
            path_space("two-points-33x33".into(), lattice(&r3, &r3), 2, mks(&r3)),
            path_space("three-points-13x13".into(), lattice(&r, &r), 3, mks(&[0, 1, 2, 3, 6, 7, 9, 12])),
            path_space("six-points-4x3".into(), lattice(&[2, 4, 6, 9], &[1, 4, 9]), 6, mks(&[1, 2, 3, 4, 5, 6, 7, 9, 10])),
            path_space("seven-points-3x3".into(), lattice(&[2, 4, 7], &[2, 5, 7]), 7, mks(&[2, 3, 4, 5, 6, 7])),
            path_space("extreme-four-36".into(), lattice(&ext, &ext), 4, mx),
        ]);
    }
    v
}

// ---- C11
pub fn clip(cx: &mut Cx, t: &Topology<u32>, m: M) -> Result<Topology<u32>, String> { let mk = m.real(); cx.call("clipping", || clip_topology(t, &mk)) }

/// Nothing outside, and boundaries strictly inside are stored once.
/// (Where crossings are rounded, two boundaries may end in the same point of the mask line.)
pub fn inside_shared(v: &View<u32>, m: M, exact: bool) -> R { inside_shared_all(v, &[m], exact) }
/// The same for several masks; what lies along a mask line is not a boundary between regions.
pub fn inside_shared_all(v: &View<u32>, ms: &[M], exact: bool) -> R {
    let uses = v.uses();
    for e in &v.edges { for &p in e { for m in ms { if m.side(p) < 0 { return Err(format!("edge {:?} reaches outside {:?}", e, m)); } } } }
    let mut segs: Vec<((P, P), usize)> = vec![];
    for (i, e) in v.edges.iter().enumerate() { for w in e.windows(2) { if uses[i].is_empty() || (!exact && ms.iter().any(|m| m.side(w[0]) == 0 || m.side(w[1]) == 0)) { continue; } if w[0] != w[1] && ms.iter().all(|m| m.side(w[0]) > 0 || m.side(w[1]) > 0) { segs.push(((w[0].min(w[1]), w[0].max(w[1])), i)); } } }
    segs.sort_unstable();
    for w in segs.windows(2) { if w[0].0 == w[1].0 { return Err(format!("segment {:?} is stored in edges {:?} and {:?}", w[0].0, v.edges[w[0].1], v.edges[w[1].1])); } }
    Ok(())
}

/// Coverage when crossings are rounded: the crossing points are read off the result, must be within a unit of the
/// exact ones, and with them the coverage must be exact.
pub fn covers_rounded(v: &View<u32>, c: &Complex, l: &LMap, m: M, cx: &mut Cx) -> R {
    // crossing segments of the map that are some region's boundary
    let mut segs: Vec<(P, P)> = vec![]; // (inside, outside)
    let faces = l.all_faces();
    for f in &faces { for (a, b) in c.boundary(f) {
        let (p, q) = (c.verts[a], c.verts[b]);
        if m.side(p) > 0 && m.side(q) < 0 { segs.push((p, q)); }
        if m.side(q) > 0 && m.side(p) < 0 { segs.push((q, p)); }
    } }
    segs.sort_unstable(); segs.dedup();
    let mut cand: Vec<Vec<P>> = vec![];
    let mut onto: Vec<(P, P)> = vec![]; // what ends on the mask line: (other end, point on the line)
    for e in &v.edges { for w in e.windows(2) { for (a, b) in [(w[0], w[1]), (w[1], w[0])] { if m.side(b) == 0 { onto.push((a, b)); } } } }
    onto.sort_unstable(); onto.dedup();
    for &(p, q) in &segs {
        let mut xs: Vec<P> = vec![];
        for &(a, b) in &onto[onto.partition_point(|x| x.0 < p)..] { if a != p { break; } if near(m, p, q, b) { xs.push(b); } }
        if xs.is_empty() { let (n, d) = m.cross(p, q); xs.push(m.mk(n.div_euclid(d) as i64)); if n % d != 0 { xs.push(m.mk(n.div_euclid(d) as i64 + 1)); } cx.note("crossing not in the result"); }
        cand.push(xs);
    }
    let combos: u64 = cand.iter().map(|x| x.len() as u64).product();
    if combos > 4096 { cx.note("skipped: ambiguous crossings"); return Ok(()); }
    let mut last = String::new();
    'combo: for k in 0..combos {
        let mut d = Dec(k);
        let xs: Vec<P> = cand.iter().map(|x| *d.pick(x)).collect();
        let mut at = 0;
        for (i, (id, _)) in l.regions.iter().enumerate() {
            // clip the region's boundary: inside pieces plus closure along the mask line
            let mut ch = Chain::new();
            let mut ends: Vec<(i64, i64)> = vec![];
            let free = |r: P| if m.axis() == 0 { r.1 } else { r.0 };
            for (a, b) in c.boundary(&faces[i]) {
                let (p, q) = (c.verts[a], c.verts[b]);
                let (sp, sq) = (m.side(p), m.side(q));
                let x = |p: P, q: P| xs[segs.binary_search(&(p, q)).unwrap()];
                let (u, w) = if sp >= 0 && sq >= 0 { if sp == 0 && sq == 0 { continue; } (p, q) }
                    else if sp > 0 { (p, x(p, q)) } else if sq > 0 { (x(q, p), q) } else { continue };
                ch.seg(u, w);
                if m.side(w) == 0 { ends.push((free(w), 1)); }
                if m.side(u) == 0 { ends.push((free(u), -1)); }
            }
            // the closure on the line is the unique 1-chain with the opposite boundary
            for (f, s) in ends { ch.seg_n(m.mk(f), m.mk(-1), s); }
            let want = ch.canon();
            let have = at < v.regions.len() && v.regions[at].data == *id;
            if want.is_empty() {
                // narrower than the rounding: its pieces may remain, as long as they cancel out like the crossings do
                let none = faces[i].iter().all(|&f| c.faces[f].iter().all(|&x| m.side(c.verts[x]) <= 0));
                if have && (none || !v.chain(at).is_empty()) { last = format!("region {} should have vanished: {}", id, v.show()); continue 'combo; }
                if have { at += 1; }
                continue;
            }
            if !have { last = format!("expected region {} at position {}, found {:?}", id, at, v.regions.iter().map(|r| r.data).collect::<Vec<_>>()); continue 'combo; }
            let got = v.chain(at);
            if got != want { last = format!("region {} covers something else: outline {} expected {}", id, got.show(), want.show()); continue 'combo; }
            at += 1;
        }
        if at != v.regions.len() { last = "extra regions".into(); continue; }
        return Ok(());
    }
    Err(last)
}

fn c11(mc: &MapCfg, l: &LMap, p: &[PRegion], m: M, norm: bool, cx: &mut Cx) -> R {
    let t = build(cx, p)?;
    let t = if norm { normalize(cx, &t)? } else { t };
    let before = view32(&t)?;
    let r = clip(cx, &t, m)?;
    if view32(&t)? != before { return Err("clipping modified its input".into()); }
    let v = view32(&r)?;
    cx.state(&v);
    let ctx = |e: String| format!("{} -- clipped {}", e, v.show());
    v.structure().map_err(ctx)?;
    let exact = l.all_faces().iter().all(|f| mc.cx.chain_clipped(f.iter().cloned(), &[m]).is_some());
    inside_shared(&v, m, exact).map_err(ctx)?;
    if exact { covers(&v, &mc.cx, l, &[m]).map_err(ctx)?; cx.note("exact"); }
    else { covers_rounded(&v, &mc.cx, l, m, cx).map_err(ctx)?; cx.note("rounded"); }
    cx.validated += 1;
    Ok(())
}

fn c11_spaces(th: bool) -> Vec<Space> {
    let mut out = vec![];
    use Diag::*;
    let n0 = family(0).len();
    let more = if th { family(2).into_iter().skip(n0).collect() } else { vec![cfg(tri(2, 1, Cross), "0AaB", &[0, 2]), cfg(sq(4, 3), "0A", &[0, 1, 2])] };
    for (m, few) in family(0).into_iter().map(|m| { let few = !th && m.name.starts_with("sq3x3/AaB"); (m, few) }).chain(more.into_iter().map(|m| (m, true)))
        .chain(larger(0).into_iter().map(|m| (m, false))).chain(larger(if th { 3 } else { 2 }).into_iter().skip(2).map(|m| (m, true))).chain(bulk(0).into_iter().map(|m| (m, true))) {
        let masks = m.masks(few);
        let n = masks.len() as u64;
        let (a, b, ms, ms2) = (m.clone(), m.clone(), masks.clone(), masks);
        out.push(Space::new(m.name.clone(), m.size() * n * 2, move |i, cx| {
            let (norm, i) = (i % 2 == 1, i / 2);
            let (l, _, p) = a.decode(i / n);
            c11(&a, &l, &p, ms[(i % n) as usize], norm, cx)
        }, move |i| format!("{}clip by {:?} of {}", if i % 2 == 1 { "normalized, " } else { "" }, ms2[(i / 2 % n) as usize], b.describe(i / 2 / n))));
    }
    out
}

// ---- C12
const ORDERS: u64 = 24;
fn order(mut k: u64) -> Vec<usize> { let mut pool = vec![0, 1, 2, 3]; let mut o = vec![]; for n in (1..=4u64).rev() { o.push(pool.remove((k % n) as usize)); k /= n; } o }

#[derive(Clone, Copy)]
struct Rect { x: (i64, i64), y: (i64, i64) }
impl Rect {
    fn masks(&self) -> [M; 4] { [M::MinX(self.x.0), M::MaxX(self.x.1), M::MinY(self.y.0), M::MaxY(self.y.1)] }
}
fn rects(c: &Complex, few: bool) -> Vec<Rect> {
    let ax = |axis: usize| { let mut v: Vec<i64> = c.verts.iter().map(|p| if axis == 0 { p.0 } else { p.1 }).collect(); v.sort_unstable(); v.dedup(); v };
    let pairs = |axis: usize| {
        let cs = ax(axis);
        let (lo, hi) = (cs[0], cs[cs.len() - 1]);
        let mut out = vec![(lo - 1, hi + 1), (lo + 1, hi - 1), (cs[1], hi)];
        if few { out.push((cs[cs.len() / 2], hi + 1)); }
        if !few { out.extend([(lo, cs[cs.len() - 2]), (lo + 2, lo + 3), (cs[1] - 1, cs[1] + 1), (lo, hi)]); }
        out
    };
    let mut r = vec![];
    for &x in &pairs(0) { for &y in &pairs(1) { r.push(Rect { x, y }); } }
    r
}

/// Like `rects`, clamped to the u32 range.
fn huge_rects(c: &Complex) -> Vec<Rect> {
    let mut r: Vec<Rect> = rects(c, false);
    let f = |(a, b): (i64, i64)| (a.clamp(0, MAX), b.clamp(0, MAX));
    for x in r.iter_mut() { x.x = f(x.x); x.y = f(x.y); }
    r.sort_by_key(|r| (r.x, r.y));
    r.dedup_by_key(|r| (r.x, r.y));
    r
}
fn wider(m: M) -> M { match m { M::MinX(v) => M::MinX((v - 1).max(0)), M::MinY(v) => M::MinY((v - 1).max(0)), M::MaxX(v) => M::MaxX((v + 1).min(MAX)), M::MaxY(v) => M::MaxY((v + 1).min(MAX)) } }

/// Whatever the rounding of crossings: a mask applied again, or a wider one, changes nothing any more; a mask that
/// contains the whole map changes nothing at all.
fn c12_again(p: &[PRegion], r: Rect, ord: &[usize], norm: bool, cx: &mut Cx) -> R {
    let ms = r.masks();
    let mut t = build(cx, p)?;
    if norm { t = normalize(cx, &t)?; }
    let all: Vec<P> = p.iter().flat_map(|r| r.outer.iter().chain(&r.inner)).flat_map(|r| r.pts.iter().cloned()).collect();
    let mut done: Vec<M> = vec![];
    for &k in ord {
        let b = view32(&t)?;
        t = clip(cx, &t, ms[k])?;
        done.push(ms[k]);
        let a = view32(&t)?;
        cx.state(&a);
        let ctx = |e: String| format!("{} -- {:?} of {:?}", e, done, ms);
        a.structure().map_err(ctx)?;
        for e in &a.edges { for &q in e { if done.iter().any(|m| m.side(q) < 0) { return Err(ctx(format!("edge {:?} reaches outside", e))); } } }
        let mut it = b.regions.iter().map(|r| r.data);
        if !a.regions.iter().all(|r| it.any(|d| d == r.data)) { return Err(ctx("regions out of order or made up".into())); }
        if all.iter().all(|&q| ms[k].side(q) >= 0) { let clear = all.iter().all(|&q| ms[k].side(q) > 0); if clear { same_rings(&b, &a) } else { same_cover(&b, &a) }.map_err(|e| ctx(format!("a mask that contains the whole map changed it: {}", e)))?; cx.note("mask contains the map"); }
        for (w, what) in [(ms[k], "the same mask again"), (wider(ms[k]), "a wider mask")] {
            let u = clip(cx, &t, w)?;
            same_cover(&a, &view32(&u)?).map_err(|e| ctx(format!("{} changed something: {}", what, e)))?;
        }
    }
    cx.validated += 1;
    Ok(())
}
fn c12_again_space(m: Map, orders: u64) -> Space {
    let rs = huge_rects(&m.cx);
    let n = rs.len() as u64;
    let (a, b) = (m.clone(), m.clone());
    let dec = move |i: u64| { let mut d = Dec(i); let o = order(d.take(orders) * if orders < ORDERS { 7 } else { 1 }); let e = d.take(2) == 1; let r = rs[d.take(n) as usize]; (d.0, r, o, e) };
    let dec2 = dec.clone();
    Space::new(format!("again/{}x{}x{}", m.name, n, orders), m.size() * n * orders * 2, move |i, cx| { let (k, r, o, e) = dec(i); let (_, _, pr) = a.decode(k); c12_again(&pr, r, &o, e, cx) },
        move |i| { let (k, r, o, e) = dec2(i); format!("masks {:?} in order {:?}, normalized first {}, on {}", r.masks(), o, e, b.describe(k)) })
}

/// What every set of the four masks leaves of every region.
struct Wants { ids: Vec<u32>, by: Vec<Vec<Chain>> }
fn wants(c: &Complex, l: &LMap, ms: &[M; 4]) -> Option<Wants> {
    let ids = l.regions.iter().map(|r| r.0).collect();
    let by = (0..16usize).map(|s| { let m: Vec<M> = (0..4).filter(|k| s >> k & 1 == 1).map(|k| ms[k]).collect();
        (0..l.regions.len()).map(|i| c.chain_clipped(l.faces(i).into_iter(), &m)).collect::<Option<Vec<_>>>() }).collect::<Option<Vec<_>>>()?;
    Some(Wants { ids, by })
}
fn covers_want(v: &View<u32>, w: &Wants, set: usize) -> R {
    let mut k = 0;
    for (i, want) in w.by[set].iter().enumerate() {
        if want.is_empty() { continue; }
        if k >= v.regions.len() || v.regions[k].data != w.ids[i] { return Err(format!("expected region {} at position {}, found regions {:?}", w.ids[i], k, v.regions.iter().map(|r| r.data).collect::<Vec<_>>())); }
        let got = v.chain(k);
        if got != *want { return Err(format!("region {} covers something else: outline {} expected {}", w.ids[i], got.show(), want.show())); }
        k += 1;
    }
    if k != v.regions.len() { return Err(format!("unexpected extra regions: {:?}", v.regions.iter().map(|r| r.data).collect::<Vec<_>>())); }
    Ok(())
}

/// All 24 orders of the four masks, as a tree of prefixes.
/// pattern: bit i = normalize before clip i (i = 0..4), bit 4 = normalize at the end
struct C12<'a> { ms: [M; 4], w: &'a Wants, pattern: u64, extra: u64 }
impl<'a> C12<'a> {
    fn check(&self, t: &Topology<u32>, done: &[usize], what: &str, cx: &mut Cx) -> Result<View<u32>, String> {
        let v = view32(t)?;
        cx.state(&v);
        let set = done.iter().fold(0, |s, k| s | 1 << k);
        v.connected().and_then(|_| covers_want(&v, self.w, set)).map_err(|e| format!("{} after {} with {:?} (pattern {:b}, extra {}) -- now {}", e, what, done.iter().map(|&k| self.ms[k]).collect::<Vec<_>>(), self.pattern, self.extra, v.show()))?;
        Ok(v)
    }
    fn go(&self, t: &Topology<u32>, done: &mut Vec<usize>, cx: &mut Cx) -> R {
        let i = done.len();
        let own;
        let t = if self.pattern >> i & 1 == 1 { own = normalize(cx, t)?; self.check(&own, done, "normalizing", cx)?; &own } else { t };
        if i == 4 { cx.validated += 1; return Ok(()); }
        for k in 0..4 {
            if done.contains(&k) { continue; }
            let mut u = clip(cx, t, self.ms[k])?;
            done.push(k);
            self.check(&u, done, "clipping", cx)?;
            if self.extra == 1 {
                // the same mask again, then a wider one
                u = clip(cx, &u, self.ms[k])?;
                let b = self.check(&u, done, "clipping twice", cx)?;
                u = clip(cx, &u, wider(self.ms[k]))?;
                let a = self.check(&u, done, "clipping wider", cx)?;
                same_rings(&b, &a).map_err(|e| format!("a mask that contains everything changed the map: {}", e))?;
            }
            self.go(&u, done, cx)?;
            done.pop();
        }
        Ok(())
    }
}
fn c12(mc: &MapCfg, l: &LMap, p: &[PRegion], r: Rect, patterns: &[u64], cx: &mut Cx) -> R {
    let ms = r.masks();
    let w = match wants(&mc.cx, l, &ms) { Some(w) => w, None => { cx.note("crossing not integral: skipped"); return Ok(()); } };
    let t = build(cx, p)?;
    for &pattern in patterns { for extra in 0..2 { C12 { ms, w: &w, pattern, extra }.go(&t, &mut vec![], cx)?; } }
    Ok(())
}

/// Same regions covering the same points.
pub fn same_cover(a: &View<u32>, b: &View<u32>) -> R {
    let tr = |v: &View<u32>| (0..v.regions.len()).map(|i| (v.regions[i].data, v.chain(i))).collect::<Vec<_>>();
    if tr(a) != tr(b) { return Err(format!("{} became {}", a.show(), b.show())); }
    Ok(())
}
/// Same regions with the same rings, point for point.
pub fn same_rings(a: &View<u32>, b: &View<u32>) -> R {
    let tr = |v: &View<u32>| v.regions.iter().map(|r| (r.data, r.outer.iter().map(|x| v.trace(x)).collect::<Vec<_>>(), r.inner.iter().map(|x| v.trace(x)).collect::<Vec<_>>())).collect::<Vec<_>>();
    if tr(a) != tr(b) { return Err(format!("{} became {}", a.show(), b.show())); }
    Ok(())
}

fn c12_space(m: Map, few: bool, patterns: &'static [u64]) -> Space { let rs = if m.name.contains("huge") || m.name.contains("s0/") { huge_rects(&m.cx) } else { rects(&m.cx, few) }; c12_space_of(m, rs, patterns) }
fn c12_space_of(m: Map, rs: Vec<Rect>, patterns: &'static [u64]) -> Space {
    let n = rs.len() as u64;
    let (a, b) = (m.clone(), m.clone());
    let dec = move |i: u64| (i / n, rs[(i % n) as usize]);
    let dec2 = dec.clone();
    Space::new(format!("{}x{}x{}", m.name, n, patterns.len()), m.size() * n, move |i, cx| { let (k, r) = dec(i); let (l, _, pr) = a.decode(k); c12(&a, &l, &pr, r, patterns, cx) },
        move |i| { let (k, r) = dec2(i); format!("masks {:?} in all orders, normalize patterns {:?}, with and without repeats, on {}", r.masks(), patterns, b.describe(k)) })
}

fn c12_spaces(th: bool) -> Vec<Space> {
    use Diag::*;
    const P1: &[u64] = &[0, 1, 0b11111];
    const P0: &[u64] = &[0];
    const P2: &[u64] = &[0, 0b10000];
    const P3: &[u64] = &[0, 1, 0b10, 0b100, 0b1000, 0b10000, 0b11111];
    let mut v = vec![
        c12_space(cfg(sq(2, 2), "0AB", &[0, 3]), false, P1),
        c12_space(cfg(tri(1, 1, Cross), "0AaB", &[0, 2]), true, P1),
        c12_space(cfg(sq(3, 3), "0A", &[0]), true, P1),
        c12_space(cfg(tri(2, 1, Cross), "0A", &[0, 2]), true, P2),
        c12_space(cfg(tri(2, 1, Cross), "0AB", &[0]), true, P0),
        c12_space(patterned(5, 5, None, 4, &[0], true), true, P1),
        c12_space(patterned(6, 4, Alt, 2, &[0], true), true, P0),
        c12_space(cfg(huge(None), "0AB", &[0, 3]), false, P1),
        c12_space(cfg(huge3(), "0A", &[0]), false, P0),
        c12_space(patterned(5, 5, None, 0, &[0], true), false, P0),
        { let m = patterned(61, 57, None, 6, &[0], true); let r = rects(&m.cx, true); c12_space_of(m, vec![r[5]], P0) },
        c12_again_space(cfg(skew(Up), "0AB", &[0]), 2),
        c12_again_space(cfg(huge(Down), "0AB", &[0]), 2),
        c12_again_space(cfg(tri(1, 1, Cross), "0AaB", &[0, 2]), ORDERS),
        c12_again_space(cfg(sq(3, 3), "0A", &[0, 1]), 4),
        c12_again_space(patterned(6, 7, Down, 0, &[0], true), 4),
    ];
    if th {
        v.extend(vec![
            c12_space(cfg(tri(1, 1, Cross), "0AaB", &[0, 2]), false, P1),
            c12_space(cfg(tri(2, 1, Cross), "0AB", &[0]), true, P2),
            c12_space(cfg(sq(3, 2), "0AaB", &[0, 3]), false, P3),
            c12_space(cfg(sq(3, 3), "0A", &[0, 1, 2, 3]), false, P3),
            c12_space(cfg(sq(4, 3), "0A", &[0, 1]), false, P2),
            c12_space(cfg(tri(2, 1, Cross), "0AaB", &[0, 2]), true, P1),
            c12_space(cfg(tri(2, 2, Alt), "0AB", &[0, 1]), true, P1),
            c12_space(cfg(huge3(), "0AB", &[0]), false, P0),
            c12_space(patterned(9, 11, None, 0, &[0, 3], false), false, P0),
            c12_again_space(cfg(skew(Down), "0AaB", &[0, 1]), 4),
            c12_again_space(cfg(skew(Cross), "0AB", &[0]), 1),
            c12_again_space(cfg(huge(Cross), "0A", &[0, 2]), 4),
            c12_again_space(patterned(9, 11, Alt, 0, &[0, 5], false), 4),
        ]);
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C12", level: "model_checking", spaces: c12_spaces },
        Prop { id: "C10", level: "model_checking", spaces: c10_spaces },
        Prop { id: "C11", level: "model_checking", spaces: c11_spaces },
    ]
}
