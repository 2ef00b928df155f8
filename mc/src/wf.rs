//! Structural inspection of a Topology without following a raw pointer that has not been checked.
use crate::geom::*;
use topogeo::topology::{Direction, TopoEdge, TopoRegion, TopoRing, Topology};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct VRegion<K> { pub data: K, pub outer: Vec<VRing>, pub inner: Vec<VRing> }
/// (edge index, forward)
pub type VRing = Vec<(usize, bool)>;
/// An index-based copy of a topology.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct View<K> { pub regions: Vec<VRegion<K>>, pub edges: Vec<Vec<P>>,
    /// For each edge the rings in its slots, as (region, is_inner, ring index).
    pub slots: Vec<[Option<(usize, bool, usize)>; 2]> }

/// Copies the topology into indices, checking that every reference is valid (C04).
pub fn view<D, K>(t: &Topology<D>, key: impl Fn(&D) -> K) -> Result<View<K>, String> {
    let esz = std::mem::size_of::<TopoEdge<D>>();
    let e0 = t.edges.as_ptr() as usize;
    let ne = t.edges.len();
    let mut rings: Vec<(usize, (usize, bool, usize))> = vec![];
    let mut regions = vec![];
    for (i, reg) in t.regions.iter().enumerate() {
        let rp = reg as *const TopoRegion<D>;
        let mut vr = VRegion { data: key(&reg.data), outer: vec![], inner: vec![] };
        for (inner, list) in [(false, &reg.outer_rings), (true, &reg.inner_rings)] {
            for (k, ring) in list.iter().enumerate() {
                if ring.region != rp { return Err(format!("ring {} ({}) of region {} does not refer to its region", k, if inner { "inner" } else { "outer" }, i)); }
                rings.push((ring as *const TopoRing<D> as usize, (i, inner, k)));
                let mut v = vec![];
                for de in ring.directed_edges.iter() {
                    let a = de.edge as usize;
                    if ne == 0 || a < e0 || (a - e0) % esz != 0 || (a - e0) / esz >= ne {
                        return Err(format!("region {} ring {} has a directed edge that is not an edge of the topology", i, k));
                    }
                    v.push(((a - e0) / esz, de.direction == Direction::Forward));
                }
                if inner { vr.inner.push(v) } else { vr.outer.push(v) }
            }
        }
        regions.push(vr);
    }
    rings.sort_unstable();
    let mut edges = vec![];
    let mut slots = vec![];
    for (i, e) in t.edges.iter().enumerate() {
        edges.push(e.points.iter().map(unpt).collect::<Vec<P>>());
        let mut s = [None, None];
        for k in 0..2 {
            if e.rings[k].is_null() { continue; }
            match rings.binary_search_by_key(&(e.rings[k] as usize), |r| r.0).ok().map(|j| &rings[j]) {
                None => return Err(format!("edge {} {:?} refers to a ring that is not in the topology", i, edges[i])),
                Some(r) => s[k] = Some(r.1),
            }
        }
        slots.push(s);
    }
    Ok(View { regions, edges, slots })
}

pub fn view32(t: &Topology<u32>) -> Result<View<u32>, String> { view(t, |d| *d) }

impl<K> View<K> {
    pub fn dpoints(&self, de: (usize, bool)) -> Vec<P> { let mut v = self.edges[de.0].clone(); if !de.1 { v.reverse(); } v }
    /// Points of a ring in order, joints once, without the closing repetition.
    pub fn trace(&self, r: &VRing) -> Vec<P> {
        let mut out: Vec<P> = vec![];
        for &de in r { let p = self.dpoints(de); let n = p.len(); if n > 0 { out.extend_from_slice(&p[..n - 1]); } }
        out
    }
    pub fn rings(&self) -> impl Iterator<Item = ((usize, bool, usize), &VRing)> {
        self.regions.iter().enumerate().flat_map(|(i, r)| r.outer.iter().enumerate().map(move |(k, x)| ((i, false, k), x))
            .chain(r.inner.iter().enumerate().map(move |(k, x)| ((i, true, k), x))))
    }
    /// Rings are closed sequences of edges; edge slots list exactly their uses.
    pub fn connected(&self) -> Result<(), String> {
        for (i, e) in self.edges.iter().enumerate() { if e.len() < 2 { return Err(format!("edge {} has {} points", i, e.len())); } }
        for (id, r) in self.rings() {
            if r.is_empty() { return Err(format!("ring {:?} has no edges", id)); }
            for k in 0..r.len() {
                let (a, b) = (self.dpoints(r[k]), self.dpoints(r[(k + 1) % r.len()]));
                if a.last() != b.first() { return Err(format!("ring {:?} is broken after edge {} of {}: {:?} then {:?}", id, k, r.len(), a, b)); }
            }
        }
        Ok(())
    }
    pub fn uses(&self) -> Vec<Vec<(usize, bool, usize)>> {
        let mut u: Vec<Vec<(usize, bool, usize)>> = vec![vec![]; self.edges.len()];
        for (id, r) in self.rings() { for de in r { u[de.0].push(id); } }
        u
    }
    pub fn incidence(&self, allow_orphans: bool) -> Result<(), String> {
        for (i, mut u) in self.uses().into_iter().enumerate() {
            let mut s: Vec<_> = self.slots[i].iter().flatten().cloned().collect();
            if self.slots[i][0].is_none() && self.slots[i][1].is_some() { return Err(format!("edge {}: second ring slot filled before the first", i)); }
            if u.is_empty() && !allow_orphans { return Err(format!("edge {} {:?} belongs to no ring", i, self.edges[i])); }
            s.sort_unstable(); u.sort_unstable();
            if s != u { return Err(format!("edge {} {:?} lists rings {:?} but is traversed by {:?}", i, self.edges[i], s, u)); }
        }
        Ok(())
    }
    pub fn structure(&self) -> Result<(), String> { self.connected()?; self.incidence(true) }
    pub fn chain(&self, i: usize) -> Chain {
        let mut c = Chain::new();
        for r in self.regions[i].outer.iter().chain(self.regions[i].inner.iter()) { for &de in r { c.path(&self.dpoints(de)); } }
        c.canon()
    }
    /// Canonical stored direction.
    pub fn canonical_dir(&self) -> Result<(), String> {
        for (i, e) in self.edges.iter().enumerate() {
            let (a, b) = (e[0], e[e.len() - 1]);
            if a > b || (a == b && area2(e) < 0) { return Err(format!("edge {} {:?} is not stored in canonical direction", i, e)); }
        }
        Ok(())
    }
    /// No piece of boundary is stored in two edges (or twice in one).
    pub fn stored_once(&self) -> Result<(), String> {
        let mut segs: Vec<((P, P), usize)> = vec![];
        for (i, e) in self.edges.iter().enumerate() { for w in e.windows(2) { if w[0] != w[1] { segs.push(((w[0].min(w[1]), w[0].max(w[1])), i)); } } }
        segs.sort_unstable();
        for w in segs.windows(2) { if w[0].0 == w[1].0 { return Err(format!("segment {:?} is stored in edges {:?} and {:?}", w[0].0, self.edges[w[0].1], self.edges[w[1].1])); } }
        Ok(())
    }
}
impl<K: std::fmt::Debug> View<K> {
    pub fn show(&self) -> String {
        let mut s = String::new();
        for r in &self.regions {
            s += &format!("region {:?}:", r.data);
            for x in &r.outer { s += &format!(" outer{:?}", x.iter().map(|&d| self.dpoints(d)).collect::<Vec<_>>()); }
            for x in &r.inner { s += &format!(" inner{:?}", x.iter().map(|&d| self.dpoints(d)).collect::<Vec<_>>()); }
            s += "; ";
        }
        s
    }
}

impl<K: Clone> View<K> {
    /// Rebuilds a real Topology from a view, with real references (used to start the code under test from
    /// any state, e.g. one reached earlier in the search).
    pub fn realize(&self) -> Topology<K> {
        let edges: Box<[TopoEdge<K>]> = self.edges.iter().map(|e| TopoEdge {
            points: e.iter().map(|&p| pt(p)).collect::<Vec<_>>().into_boxed_slice(), rings: [std::ptr::null(); 2] }).collect::<Vec<_>>().into_boxed_slice();
        let e0 = edges.as_ptr();
        let mk = |r: &VRing| TopoRing { region: std::ptr::null(), directed_edges: r.iter().map(|&(e, f)| topogeo::topology::DirectedEdge {
            edge: unsafe { e0.add(e) }, direction: if f { Direction::Forward } else { Direction::Backward } }).collect::<Vec<_>>().into_boxed_slice() };
        let regions: Box<[TopoRegion<K>]> = self.regions.iter().map(|r| TopoRegion { data: r.data.clone(),
            outer_rings: r.outer.iter().map(mk).collect::<Vec<_>>().into_boxed_slice(),
            inner_rings: r.inner.iter().map(mk).collect::<Vec<_>>().into_boxed_slice() }).collect::<Vec<_>>().into_boxed_slice();
        let mut t = Topology { regions, edges };
        for i in 0..t.regions.len() {
            let rp = &t.regions[i] as *const TopoRegion<K>;
            for r in t.regions[i].outer_rings.iter_mut().chain(t.regions[i].inner_rings.iter_mut()) { r.region = rp; }
        }
        for i in 0..t.edges.len() { for k in 0..2 {
            if let Some((a, inner, b)) = self.slots[i][k] {
                t.edges[i].rings[k] = if inner { &t.regions[a].inner_rings[b] } else { &t.regions[a].outer_rings[b] };
            }
        } }
        t
    }
}
