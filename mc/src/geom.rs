//! Reference geometry: exact 1-chains, planar complexes, labelled maps and their presentations.
use topogeo::geo::{Edge, Point, Region, Ring};

pub type P = (i64, i64);
pub fn pt(p: P) -> Point { Point(p.0 as u32, p.1 as u32) }
pub fn unpt(p: &Point) -> P { (p.0 as i64, p.1 as i64) }
fn gcd(a: i64, b: i64) -> i64 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t; } a }

/// A formal sum of directed segments, kept as events on lines. Two chains are equal iff they have the
/// same winding number around every point of the plane (for closed chains).
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Chain { ev: Vec<(i64, i64, i128, i64, i64)> }
impl Chain {
    pub fn new() -> Chain { Chain { ev: vec![] } }
    pub fn seg(&mut self, p: P, q: P) { self.seg_n(p, q, 1) }
    pub fn seg_n(&mut self, p: P, q: P, n: i64) {
        if p == q { return; }
        let (dx, dy) = (q.0 - p.0, q.1 - p.1);
        let g = gcd(dx, dy);
        let (mut ux, mut uy, mut s) = (dx / g, dy / g, 1);
        if ux < 0 || (ux == 0 && uy < 0) { ux = -ux; uy = -uy; s = -1; }
        let c = ux as i128 * p.1 as i128 - uy as i128 * p.0 as i128;
        let (a, b) = if ux != 0 { (p.0, q.0) } else { (p.1, q.1) };
        let (lo, hi) = (a.min(b), a.max(b));
        self.ev.push((ux, uy, c, lo, s * n));
        self.ev.push((ux, uy, c, hi, -s * n));
    }
    pub fn path(&mut self, ps: &[P]) { for w in ps.windows(2) { self.seg(w[0], w[1]); } }
    pub fn ring(&mut self, ps: &[P]) { for i in 0..ps.len() { self.seg(ps[i], ps[(i + 1) % ps.len()]); } }
    pub fn add(&mut self, o: &Chain, n: i64) { for e in &o.ev { self.ev.push((e.0, e.1, e.2, e.3, e.4 * n)); } }
    pub fn canon(mut self) -> Chain {
        self.ev.sort_unstable();
        let mut out: Vec<(i64, i64, i128, i64, i64)> = Vec::with_capacity(self.ev.len());
        for e in self.ev {
            if let Some(l) = out.last_mut() { if (l.0, l.1, l.2, l.3) == (e.0, e.1, e.2, e.3) { l.4 += e.4; if l.4 == 0 { out.pop(); } continue; } }
            out.push(e);
        }
        Chain { ev: out }
    }
    pub fn is_empty(&self) -> bool { self.ev.is_empty() }
    /// Drops everything on the vertical (axis 0) or horizontal (axis 1) line at `v`.
    pub fn without_line(mut self, axis: usize, v: i64) -> Chain {
        self.ev.retain(|e| if axis == 0 { !(e.0 == 0 && -e.2 == v as i128 * e.1 as i128) } else { !(e.1 == 0 && e.2 == v as i128 * e.0 as i128) });
        self
    }
    /// The segments of a canonical chain, for messages.
    pub fn show(&self) -> String {
        let mut s = String::new();
        let mut i = 0;
        while i < self.ev.len() {
            let k = (self.ev[i].0, self.ev[i].1, self.ev[i].2);
            let mut v = 0;
            while i < self.ev.len() && (self.ev[i].0, self.ev[i].1, self.ev[i].2) == k {
                v += self.ev[i].4;
                if v != 0 && i + 1 < self.ev.len() {
                    let at = |t: i64| if k.0 != 0 { (t as i128, (k.2 + k.1 as i128 * t as i128) / k.0 as i128) } else { (-k.2 / k.1 as i128, t as i128) };
                    s += &format!("{}x{:?}->{:?} ", v, at(self.ev[i].3), at(self.ev[i + 1].3));
                }
                i += 1;
            }
        }
        s
    }
}

/// Exact doubled signed area (positive = clockwise with y down); `ps` closed or open.
pub fn area2(ps: &[P]) -> i128 {
    let mut a = 0i128;
    for i in 0..ps.len() {
        let (p, q) = (ps[i], ps[(i + 1) % ps.len()]);
        a += p.0 as i128 * q.1 as i128 - q.0 as i128 * p.1 as i128;
    }
    a
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum M { MinX(i64), MaxX(i64), MinY(i64), MaxY(i64) }
impl M {
    pub fn real(&self) -> topogeo::clip::ClipMask {
        use topogeo::clip::ClipMask as C;
        match *self { M::MinX(v) => C::MinX(v as u32), M::MaxX(v) => C::MaxX(v as u32), M::MinY(v) => C::MinY(v as u32), M::MaxY(v) => C::MaxY(v as u32) }
    }
    pub fn kind(k: u64, v: i64) -> M { match k { 0 => M::MinX(v), 1 => M::MaxX(v), 2 => M::MinY(v), _ => M::MaxY(v) } }
    pub fn axis(&self) -> usize { match *self { M::MinX(_) | M::MaxX(_) => 0, _ => 1 } }
    pub fn at(&self) -> i64 { match *self { M::MinX(v) | M::MaxX(v) | M::MinY(v) | M::MaxY(v) => v } }
    /// >0 strictly inside, 0 on the line, <0 outside.
    pub fn side(&self, p: P) -> i64 {
        match *self { M::MinX(v) => p.0 - v, M::MaxX(v) => v - p.0, M::MinY(v) => p.1 - v, M::MaxY(v) => v - p.1 }
    }
    /// The exact crossing as (numerator, denominator > 0) of the free coordinate.
    pub fn cross(&self, p: P, q: P) -> (i128, i128) {
        let (a, b, c, d, v) = if self.axis() == 0 { (p.0, q.0, p.1, q.1, self.at()) } else { (p.1, q.1, p.0, q.0, self.at()) };
        let (mut n, mut m) = (c as i128 * (b - a) as i128 + (v - a) as i128 * (d - c) as i128, (b - a) as i128);
        if m < 0 { n = -n; m = -m; }
        (n, m)
    }
    pub fn mk(&self, free: i64) -> P { if self.axis() == 0 { (self.at(), free) } else { (free, self.at()) } }
}

/// Clips a convex polygon exactly; None if a crossing is not an integer point.
pub fn clip_convex(ps: &[P], m: M) -> Option<Vec<P>> {
    let mut out = vec![];
    for i in 0..ps.len() {
        let (p, q) = (ps[i], ps[(i + 1) % ps.len()]);
        let (a, b) = (m.side(p), m.side(q));
        if a >= 0 { out.push(p); }
        if (a > 0 && b < 0) || (a < 0 && b > 0) {
            let (n, d) = m.cross(p, q);
            if n % d != 0 { return None; }
            out.push(m.mk((n / d) as i64));
        }
    }
    Some(out)
}

/// A subdivision of the plane into convex faces, each a clockwise (y down) cycle of vertices.
pub struct Complex {
    pub name: String,
    pub verts: Vec<P>,
    pub faces: Vec<Vec<usize>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Diag { None, Down, Up, Alt, Cross }

/// m x n cells with corner coordinates xs, ys; optional diagonals; `warp` moves single vertices.
pub fn grid(name: &str, xs: &[i64], ys: &[i64], diag: Diag, warp: &[(usize, usize, P)]) -> Complex {
    let (w, h) = (xs.len(), ys.len());
    let mut verts: Vec<P> = vec![];
    for j in 0..h { for i in 0..w {
        let mut p = (xs[i], ys[j]);
        for &(a, b, q) in warp { if (a, b) == (i, j) { p = q; } }
        verts.push(p);
    } }
    let mut faces = vec![];
    for j in 0..h - 1 { for i in 0..w - 1 {
        let (a, b, c, d) = (j * w + i, j * w + i + 1, (j + 1) * w + i + 1, (j + 1) * w + i);
        let dd = match diag { Diag::Alt => if (i + j) % 2 == 0 { Diag::Down } else { Diag::Up }, x => x };
        match dd {
            Diag::None => faces.push(vec![a, b, c, d]),
            Diag::Down => { faces.push(vec![a, b, c]); faces.push(vec![a, c, d]); }
            Diag::Up => { faces.push(vec![a, b, d]); faces.push(vec![b, c, d]); }
            _ => {
                let m = verts.len();
                verts.push(((xs[i] + xs[i + 1]) / 2, (ys[j] + ys[j + 1]) / 2));
                faces.push(vec![a, b, m]); faces.push(vec![b, c, m]); faces.push(vec![c, d, m]); faces.push(vec![d, a, m]);
            }
        }
    } }
    let cx = Complex { name: name.into(), verts, faces };
    for f in 0..cx.faces.len() { assert!(area2(&cx.poly(f)) > 0, "{} face {}", cx.name, f); }
    cx
}

impl Complex {
    pub fn poly(&self, f: usize) -> Vec<P> { self.faces[f].iter().map(|&v| self.verts[v]).collect() }
    /// Boundary chain of a set of faces.
    pub fn chain(&self, faces: impl Iterator<Item = usize>) -> Chain {
        let mut c = Chain::new();
        for f in faces { c.ring(&self.poly(f)); }
        c.canon()
    }
    pub fn chain_clipped(&self, faces: impl Iterator<Item = usize>, masks: &[M]) -> Option<Chain> {
        let mut c = Chain::new();
        for f in faces {
            let mut p = self.poly(f);
            for &m in masks { p = clip_convex(&p, m)?; }
            if p.len() >= 3 { c.ring(&p); }
        }
        Some(c.canon())
    }
    /// Directed boundary edges (vertex pairs) of a set of faces.
    pub fn boundary(&self, faces: &[usize]) -> Vec<(usize, usize)> {
        let mut v: Vec<(usize, usize)> = vec![];
        for &f in faces { let c = &self.faces[f]; for i in 0..c.len() { v.push((c[i], c[(i + 1) % c.len()])); } }
        v.sort_unstable();
        if v.len() < 40 { let all = v.clone(); v.retain(|&(a, b)| !all.contains(&(b, a))); }
        else { let all = v.clone(); v.retain(|&(a, b)| all.binary_search(&(b, a)).is_err()); }
        v
    }
    /// Traces the boundary of a set of faces into loops. `turn`: 0 = cut loops at the first revisited
    /// vertex (simple loops); 1 = sharpest right turn; 2 = sharpest left turn (loops may touch themselves);
    /// 4 + bits = one of both at each touching vertex, by the bit of its rank (modulo 3).
    pub fn trace(&self, faces: &[usize], turn: u8) -> Vec<Vec<usize>> {
        let left = self.boundary(faces); // sorted by start
        let mut used = vec![false; left.len()];
        let from = |v: usize| { let a = left.partition_point(|e| e.0 < v); let b = left.partition_point(|e| e.0 <= v); a..b };
        let mut pinch: Vec<usize> = left.windows(2).filter(|w| w[0].0 == w[1].0).map(|w| w[0].0).collect();
        pinch.dedup();
        let turn_at = |v: usize| if turn < 4 { turn } else { 1 + ((turn - 4) >> (pinch.binary_search(&v).unwrap_or(0) % 3) & 1) };
        let mut loops = vec![];
        let big = left.len() > 200;
        let mut seen: std::collections::HashMap<usize, usize> = Default::default(); // position in the path, for long ones
        for start in 0..left.len() {
            if used[start] { continue; }
            used[start] = true;
            let first = left[start];
            let mut path = vec![first.0, first.1];
            if big { seen.clear(); seen.insert(first.0, 0); }
            loop {
                let at = *path.last().unwrap();
                if turn == 0 {
                    let hit = if big { seen.get(&at).cloned() } else { path[..path.len() - 1].iter().position(|&v| v == at) };
                    if let Some(k) = hit {
                        loops.push(path[k..path.len() - 1].to_vec());
                        if big { for v in &path[k + 1..path.len() - 1] { seen.remove(v); } seen.remove(&at); }
                        path.truncate(k + 1);
                        if path.len() == 1 { break; }
                        continue;
                    }
                    if big { seen.insert(at, path.len() - 1); }
                }
                let cands = from(at).filter(|&i| !used[i]);
                if turn != 0 {
                    // the starting edge is a candidate too: it closes the loop
                    let prev = path[path.len() - 2];
                    let ang = |to: usize| { // angle class from the reversed incoming direction, clockwise on screen
                        let (a, b, c) = (self.verts[prev], self.verts[at], self.verts[to]);
                        let (ux, uy) = ((a.0 - b.0) as f64, (a.1 - b.1) as f64);
                        let (vx, vy) = ((c.0 - b.0) as f64, (c.1 - b.1) as f64);
                        let mut t = vy.atan2(vx) - uy.atan2(ux);
                        while t <= 1e-12 { t += 2.0 * std::f64::consts::PI; }
                        t
                    };
                    let mut best: Option<(f64, Option<usize>)> = None;
                    let mut opts: Vec<(f64, Option<usize>)> = cands.map(|i| (ang(left[i].1), Some(i))).collect();
                    if at == first.0 { opts.push((ang(first.1), None)); }
                    for o in opts { let better = match &best { None => true, Some(b) => if turn_at(at) == 1 { o.0 > b.0 } else { o.0 < b.0 } }; if better { best = Some(o); } }
                    match best.unwrap().1 {
                        None => { path.pop(); loops.push(path); break; }
                        Some(i) => { used[i] = true; path.push(left[i].1); }
                    }
                    continue;
                }
                let mut cands = cands;
                let i = cands.next().unwrap();
                drop(cands);
                used[i] = true;
                path.push(left[i].1);
            }
        }
        loops
    }
    pub fn loop_area2(&self, l: &[usize]) -> i128 { let ps: Vec<P> = l.iter().map(|&v| self.verts[v]).collect(); area2(&ps) }
    /// A vertex where the region's boundary touches itself (more than two boundary edges of one label set).
    pub fn max_degree(&self, groups: &[Vec<usize>]) -> usize {
        // number of undirected edges that separate different groups (or a group from nothing), per vertex
        let mut edges: Vec<(usize, usize)> = vec![];
        for g in groups { for (a, b) in self.boundary(g) { edges.push((a.min(b), a.max(b))); } }
        edges.sort_unstable(); edges.dedup();
        let mut deg = vec![0; self.verts.len()];
        for (a, b) in edges { deg[a] += 1; deg[b] += 1; }
        deg.into_iter().max().unwrap_or(0)
    }
    /// True if some single region's boundary has a vertex with more than two boundary edges.
    pub fn pinched(&self, region_faces: &[Vec<usize>]) -> bool {
        region_faces.iter().any(|g| {
            let mut at: Vec<usize> = self.boundary(g).into_iter().map(|e| e.0).collect(); // as many edges leave a vertex as arrive
            at.sort_unstable();
            at.windows(2).any(|w| w[0] == w[1])
        })
    }
}

/// One presented ring: vertices without the closing repetition.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PRing { pub pts: Vec<P> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PRegion { pub data: u32, pub outer: Vec<PRing>, pub inner: Vec<PRing> }

/// A labelled map: for every region, its groups of faces (each group is written as its own outline).
#[derive(Clone, Debug)]
pub struct LMap { pub regions: Vec<(u32, Vec<Vec<usize>>)> }
impl LMap {
    /// `labels[f]`: index into `alphabet`, whose entries are None or (region, group).
    pub fn new(labels: &[usize], alphabet: &[Option<(u32, u32)>]) -> LMap {
        let mut regions: Vec<(u32, Vec<Vec<usize>>)> = vec![];
        let mut ids: Vec<(u32, u32)> = alphabet.iter().flatten().cloned().collect();
        ids.sort_unstable();
        let mut by: Vec<Vec<usize>> = vec![vec![]; ids.len()];
        for f in 0..labels.len() { if let Some(k) = alphabet[labels[f]] { by[ids.binary_search(&k).unwrap()].push(f); } }
        for (&(r, g), fs) in ids.iter().zip(by) {
            if fs.is_empty() { continue; }
            match regions.last_mut() {
                Some(x) if x.0 == r => x.1.push(fs),
                _ => regions.push((r, vec![fs])),
            }
        }
        LMap { regions }
    }
    pub fn faces(&self, i: usize) -> Vec<usize> { let mut v: Vec<usize> = self.regions[i].1.iter().flatten().cloned().collect(); v.sort_unstable(); v }
    pub fn all_faces(&self) -> Vec<Vec<usize>> { (0..self.regions.len()).map(|i| self.faces(i)).collect() }
    pub fn present(&self, cx: &Complex, turn: u8) -> Vec<PRegion> {
        self.regions.iter().map(|(r, groups)| {
            let mut reg = PRegion { data: *r, outer: vec![], inner: vec![] };
            for g in groups { for l in cx.trace(g, turn) {
                let ring = PRing { pts: l.iter().map(|&v| cx.verts[v]).collect() };
                if cx.loop_area2(&l) > 0 { reg.outer.push(ring) } else { reg.inner.push(ring) }
            } }
            reg
        }).collect()
    }
    /// Every face as a ring of its own.
    pub fn present_faces(&self, cx: &Complex) -> Vec<PRegion> {
        self.regions.iter().enumerate().map(|(i, (r, _))| PRegion { data: *r, inner: vec![],
            outer: self.faces(i).into_iter().map(|f| PRing { pts: cx.poly(f) }).collect() }).collect()
    }
}

pub fn ring_points(r: &PRing) -> Ring {
    let mut v: Vec<Point> = r.pts.iter().map(|&p| pt(p)).collect();
    v.push(v[0]);
    Ring::Points(v.into_boxed_slice())
}
/// The ring cut into edges of `k` segments each.
pub fn ring_edges(r: &PRing, k: usize) -> Ring {
    let mut v: Vec<Point> = r.pts.iter().map(|&p| pt(p)).collect();
    v.push(v[0]);
    let mut es = vec![];
    let mut i = 0;
    while i + 1 < v.len() { let j = (i + k).min(v.len() - 1); es.push(Edge(v[i..=j].to_vec().into_boxed_slice())); i = j; }
    Ring::Edges(es.into_boxed_slice())
}
pub fn to_region<D>(r: &PRegion, data: D) -> Region<D> {
    Region { data, outer_rings: r.outer.iter().map(ring_points).collect::<Vec<_>>().into_boxed_slice(),
        inner_rings: r.inner.iter().map(ring_points).collect::<Vec<_>>().into_boxed_slice() }
}
pub fn show_regions(rs: &[PRegion]) -> String {
    let mut s = String::new();
    for r in rs {
        s += &format!("region {}:", r.data);
        for x in &r.outer { s += &format!(" outer{:?}", x.pts); }
        for x in &r.inner { s += &format!(" inner{:?}", x.pts); }
        s += "; ";
    }
    s
}
