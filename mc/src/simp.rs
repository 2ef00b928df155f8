//! C08, C09: simplification.
use crate::core::*;
use crate::geom::*;
use crate::maps::*;
use crate::wf::*;
use crate::Prop;
use std::collections::{BTreeSet, HashMap, HashSet};

pub fn tri2(a: P, b: P, c: P) -> u128 {
    let d = |u: i64, v: i64| (u - v) as i128;
    (d(b.0, a.0) * d(c.1, a.1) - d(c.0, a.0) * d(b.1, a.1)).unsigned_abs()
}

/// The elimination as a transition system. A state is the set of interior points still present together
/// with the last eliminated weight; a transition eliminates one of the interior points of least weight.
/// Every order of ties is explored.
pub struct Model<'a> { ps: &'a [P], pub states: u64, pub blown: bool }
const CAP: u64 = 40_000;
impl<'a> Model<'a> {
    pub fn new(ps: &'a [P]) -> Model<'a> { assert!(ps.len() <= 66 + 64); Model { ps, states: 0, blown: false } }
    fn least(&self, left: &[usize]) -> (u128, Vec<usize>) {
        // `left` holds all remaining indices including the two ends
        let mut best = u128::MAX;
        let mut which = vec![];
        for k in 1..left.len() - 1 {
            let w = tri2(self.ps[left[k - 1]], self.ps[left[k]], self.ps[left[k + 1]]);
            if w < best { best = w; which.clear(); }
            if w == best { which.push(k); }
        }
        (best, which)
    }
    /// All triangle areas that are ever the least, over all tie-breaks: the only thresholds that matter.
    pub fn levels(&mut self) -> BTreeSet<u128> {
        let mut out = BTreeSet::new();
        let mut seen: HashSet<Vec<usize>> = HashSet::new();
        let mut todo = vec![(0..self.ps.len()).collect::<Vec<usize>>()];
        while let Some(s) = todo.pop() {
            if s.len() <= 2 || self.blown { continue; }
            let (w, ks) = self.least(&s);
            out.insert(w);
            for k in ks { let mut t = s.clone(); t.remove(k); if seen.insert(t.clone()) { self.states += 1; if self.states > CAP { self.blown = true; } todo.push(t); } }
        }
        out
    }
    /// Every point set the elimination can end with.
    pub fn results(&mut self, threshold: u128) -> HashSet<Vec<usize>> {
        let mut fin = HashSet::new();
        let closed = self.ps[0] == self.ps[self.ps.len() - 1];
        let mut seen: HashSet<Vec<usize>> = HashSet::new();
        let all: Vec<usize> = (0..self.ps.len()).collect();
        let mut todo = vec![all.clone()];
        let mut small = false;
        while let Some(s) = todo.pop() {
            let (w, ks) = if s.len() > 2 { self.least(&s) } else { (u128::MAX, vec![]) };
            if w > threshold {
                if closed && s.len() < 4 { small = true; } else { fin.insert(s); }
                continue;
            }
            for k in ks { let mut t = s.clone(); t.remove(k); if seen.insert(t.clone()) { self.states += 1; if self.states > CAP { self.blown = true; return fin; } todo.push(t); } }
        }
        if small { for (a, b) in self.heaviest() { fin.insert(vec![0, a, b, self.ps.len() - 1]); } }
        fin
    }
    /// For a closed edge that collapses: the possible pairs of interior points of greatest weight, where a
    /// point weighs the largest least-area seen up to its elimination.
    fn heaviest(&mut self) -> HashSet<(usize, usize)> {
        // state: remaining points, running weight, and the two groups that matter: points at the top weight
        // and points at the second weight (as sets).
        type S = (Vec<usize>, u128, Vec<usize>, Vec<usize>);
        let mut out = HashSet::new();
        let mut seen: HashMap<S, ()> = HashMap::new();
        let mut todo: Vec<S> = vec![((0..self.ps.len()).collect(), 0, vec![], vec![])];
        while let Some((s, last, top, below)) = todo.pop() {
            if s.len() == 2 {
                for (i, &a) in top.iter().enumerate() { for &b in &top[i + 1..] { out.insert((a.min(b), a.max(b))); } }
                if top.len() == 1 { for &b in &below { out.insert((top[0].min(b), top[0].max(b))); } }
                continue;
            }
            let (w, ks) = self.least(&s);
            let nw = w.max(last);
            for k in ks {
                let mut t = s.clone();
                let p = t.remove(k);
                let (mut nt, mut nb) = (top.clone(), below.clone());
                // weights never decrease along the elimination, so a new weight replaces the top group
                if nw > last || top.is_empty() { if !top.is_empty() { nb = top.clone(); } nt = vec![p]; }
                else { nt.push(p); nt.sort_unstable(); }
                let key = (t, nw, nt, nb);
                if seen.insert(key.clone(), ()).is_none() { self.states += 1; if self.states > CAP { self.blown = true; return out; } todo.push(key); }
            }
        }
        out
    }
}

/// Runs the real simplification on a topology whose first edge is `ps`.
pub fn real(cx: &mut Cx, ps: &[P], threshold: u64) -> Result<Vec<P>, String> {
    let n = ps.len();
    let mut v = View { regions: vec![VRegion { data: 7u32, outer: vec![vec![(0, true)]], inner: vec![] }], edges: vec![ps.to_vec()], slots: vec![[Some((0, false, 0)), None]] };
    if ps[0] != ps[n - 1] { v.edges.push(vec![ps[0], ps[n - 1]]); v.slots.push([Some((0, false, 0)), None]); v.regions[0].outer[0].push((1, false)); }
    let t = v.realize();
    let t = cx.call("simplifying", move || topogeo::simplify(t, threshold))?;
    if t.edges.len() != v.edges.len() { return Err("the number of edges changed".into()); }
    Ok(t.edges[0].points.iter().map(unpt).collect())
}

fn check_path(ps: &[P], cx: &mut Cx) -> R {
    if ps.len() < 2 { return Ok(()); }
    let closed = ps[0] == ps[ps.len() - 1];
    if closed && ps.len() < 4 { return Ok(()); }
    let mut m = Model::new(ps);
    let levels = m.levels();
    if m.blown { cx.note("path skipped: too many tie-breaks"); return Ok(()); }
    let mut ths: BTreeSet<u64> = [0u64, u64::MAX].into_iter().collect();
    for w in levels { for t in [w.wrapping_sub(1), w] { if t <= u64::MAX as u128 { ths.insert(t as u64); } } }
    for th in ths {
        let mut m = Model::new(ps);
        let fin = m.results(th as u128);
        if m.blown { cx.note("threshold skipped: too many tie-breaks"); continue; }
        cx.transitions += m.states;
        let got = real(cx, ps, th)?;
        let ok = fin.iter().any(|s| s.len() == got.len() && s.iter().zip(&got).all(|(&i, q)| ps[i] == *q));
        if !ok {
            let want: Vec<Vec<P>> = fin.iter().take(4).map(|s| s.iter().map(|&i| ps[i]).collect()).collect();
            return Err(format!("threshold {}: {:?} simplified to {:?}; elimination gives {:?}", th, ps, got, want));
        }
        cx.state(&(ps, &got));
        cx.validated += 1;
        if fin.len() > 1 { cx.note("several tie-breaks possible"); }
        if closed && got.len() == 4 && ps.len() > 4 { cx.note("closed edge at its minimum"); }
    }
    Ok(())
}

fn path_space(name: String, size: u64, f: impl Fn(u64) -> Vec<P> + Sync + Send + Clone + 'static) -> Space {
    let g = f.clone();
    Space::new(name, size, move |i, cx| check_path(&f(i), cx), move |i| format!("edge {:?}", g(i)))
}

/// n interior points at the given x gaps, heights from an alphabet of size h (scaled).
fn heights(n: usize, gaps: &'static [i64], hs: &'static [i64], name: &str) -> Space {
    path_space(format!("heights-{}-n{}-h{}", name, n, hs.len()), pow(hs.len() as u64, n as u32), move |i| {
        let mut d = Dec(i);
        let mut x = 10;
        let mut v = vec![(x, 500)];
        for k in 0..n { x += gaps[k % gaps.len()]; v.push((x, 500 + *d.pick(hs))); }
        x += gaps[n % gaps.len()];
        v.push((x, 500));
        v
    })
}
fn nth_perm(n: usize, mut i: u64) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for k in (1..=n as u64).rev() { out.push(pool.remove((i % k) as usize)); i /= k; }
    out
}
fn perms(n: usize, hs: &'static [i64], name: &str) -> Space {
    let f: u64 = (1..=n as u64).product();
    path_space(format!("permuted-{}-n{}", name, n), f, move |i| {
        let p = nth_perm(n, i);
        let mut v = vec![(100, 1000)];
        for (k, &j) in p.iter().enumerate() {
            // peaks separated by points on the base line: the weight of a peak is set by its height alone
            v.push((100 + 10 * (k as i64 + 1), 1000 + if k % 2 == 0 { hs[j] } else { -hs[j] }));
        }
        v.push((100 + 10 * (n as i64 + 1), 1000));
        v
    })
}
/// All closed edges through `k` interior lattice points.
fn closed(k: usize, w: i64, h: i64) -> Space {
    let cells = (w * h) as u64;
    path_space(format!("closed-{}x{}-k{}", w, h, k), pow(cells, k as u32) * cells, move |i| {
        let mut d = Dec(i);
        let mut at = || { let c = d.take(cells) as i64; (3 + 2 * (c % w), 3 + 3 * (c / w)) };
        let first = at();
        let mut v = vec![first];
        for _ in 0..k { v.push(at()); }
        v.push(first);
        v
    })
}
const EXT: &[i64] = &[0, 1, 2147483648, 4294967294, 4294967295];
/// All paths through extreme coordinates.
fn extreme(k: usize, axis: &'static [i64]) -> Space {
    let n = axis.len() as u64;
    path_space(format!("extreme-{}-k{}", n, k), pow(n * n, k as u32), move |i| {
        let mut d = Dec(i);
        (0..k).map(|_| (*d.pick(axis), *d.pick(axis))).collect()
    })
}
/// Long edges: a pattern of heights repeated, with slowly growing amplitude and irregular gaps.
fn long(len: usize, period: usize) -> Space {
    path_space(format!("long-{}-p{}", len, period), pow(4, period as u32), move |i| {
        let mut d = Dec(i);
        let pat: Vec<i64> = (0..period).map(|_| *d.pick(&[0i64, 37, -53, 90])).collect();
        let mut x = 1000i64;
        let mut v = vec![(x, 100_000)];
        for k in 0..len {
            let k64 = k as i64;
            x += 5 + (k64 * 7919) % 13;
            v.push((x, 100_000 + pat[k % period] * (3 + (k64 * k64 * 31) % 17) + (k64 * 104_729) % 101));
        }
        x += 7;
        v.push((x, 100_000));
        v
    })
}

/// Reference elimination for edges too long to explore every tie-break: the order is unique as long as the least weight
/// is. Returns the running weight of every point (ends: None) and the weight at which the first tie occurs.
fn eliminate(ps: &[P]) -> (Vec<Option<u128>>, Option<u128>) {
    let n = ps.len();
    let mut prev: Vec<usize> = (0..n).map(|i| i.wrapping_sub(1)).collect();
    let mut next: Vec<usize> = (1..=n).collect();
    let mut cur: Vec<u128> = (0..n).map(|i| if i == 0 || i == n - 1 { 0 } else { tri2(ps[i - 1], ps[i], ps[i + 1]) }).collect();
    let mut queue: BTreeSet<(u128, usize)> = (1..n - 1).map(|i| (cur[i], i)).collect();
    let mut out = vec![None; n];
    let (mut run, mut tie) = (0u128, None);
    while let Some(&(w, i)) = queue.iter().next() {
        queue.remove(&(w, i));
        run = run.max(w);
        // (the last two points of a closed edge always tie, and weigh the same either way)
        if tie.is_none() && !(queue.len() == 1 && ps[0] == ps[n - 1]) && queue.iter().next().map_or(false, |q| q.0 == w) { tie = Some(run); }
        out[i] = Some(run);
        let (a, b) = (prev[i], next[i]);
        next[a] = b;
        prev[b] = a;
        for j in [a, b] {
            if j == 0 || j == n - 1 { continue; }
            queue.remove(&(cur[j], j));
            cur[j] = tri2(ps[prev[j]], ps[j], ps[next[j]]);
            queue.insert((cur[j], j));
        }
    }
    (out, tie)
}
fn check_long(ps: &[P], cx: &mut Cx) -> R {
    let n = ps.len();
    let (weight, tie) = eliminate(ps);
    if tie.is_some() { cx.note("tie: thresholds from there on skipped"); }
    let mut ws: Vec<u128> = weight.iter().flatten().cloned().collect();
    ws.sort_unstable();
    let mut ths: BTreeSet<u64> = [0u64, u64::MAX].into_iter().collect();
    for k in 0..=8 { let w = ws[(ws.len() - 1) * k / 8]; for t in [w.wrapping_sub(1), w] { if t <= u64::MAX as u128 { ths.insert(t as u64); } } }
    for w in ws.iter().rev().take(4) { if *w <= u64::MAX as u128 { ths.insert(*w as u64); } }
    let closed = ps[0] == ps[n - 1];
    for th in ths {
        if tie.map_or(false, |t| t <= th as u128) { break; }
        let keep: Vec<usize> = (0..n).filter(|&i| weight[i].map_or(true, |w| w > th as u128)).collect();
        let got = real(cx, ps, th)?;
        let ok = if closed && keep.len() < 4 {
            let top = ws[ws.len() - 1];
            let second = ws.iter().rev().find(|w| **w < top).cloned();
            let tops: Vec<usize> = (0..n).filter(|&i| weight[i] == Some(top)).collect();
            let more: Vec<usize> = if tops.len() > 1 { vec![] } else { (0..n).filter(|&i| second.is_some() && weight[i] == second).collect() };
            let mut pairs: Vec<(usize, usize)> = vec![];
            for (i, &a) in tops.iter().enumerate() { for &b in tops[i + 1..].iter().chain(&more) { pairs.push((a.min(b), a.max(b))); } }
            cx.note("closed edge at its minimum");
            pairs.iter().any(|&(a, b)| got == [ps[0], ps[a], ps[b], ps[n - 1]])
        } else { got.len() == keep.len() && keep.iter().zip(&got).all(|(&i, q)| ps[i] == *q) };
        if !ok {
            let at = keep.iter().zip(&got).position(|(&i, q)| ps[i] != *q).unwrap_or(keep.len().min(got.len()));
            return Err(format!("threshold {}: an edge of {} points was simplified to {} points, elimination keeps {}; first difference at kept point {}: {:?} instead of {:?}", th, n, got.len(), keep.len(), at, got.get(at), keep.get(at).map(|&i| ps[i])));
        }
        cx.validated += 1;
        cx.state(&(n, th, got.len(), got.get(got.len() / 2)));
    }
    Ok(())
}
fn mix(k: u64) -> u64 { let mut x = k.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234567; x ^= x >> 29; x = x.wrapping_mul(0xbf58476d1ce4e5b9); x ^ (x >> 32) }
/// Long edges of several shapes; heights are chosen so that weights practically never tie.
fn long_edge(n: usize, shape: u64, closed: bool) -> Vec<P> {
    let step = (MAX - 10) / n as i64;
    let noise = |k: i64, m: u64| (mix((k as u64).wrapping_add(shape * 1_000_003)) % m) as i64;
    let n64 = n as i64;
    let mut v: Vec<P> = (0..n64).map(|k| {
        let x = 5 + k * step + noise(k, (step as u64 / 2).max(1));
        let y = match shape {
            0 => noise(-k - 1, MAX as u64),                                                         // rough, whole range
            1 => MAX / 2 + (if k % 2 == 0 { 1 } else { -1 }) * (k * 1000 + noise(-k - 1, 900)).min(MAX / 2), // zigzag growing
            2 => MAX / 2 + (if k % 2 == 0 { 1 } else { -1 }) * ((n64 - k) * 1000 + noise(-k - 1, 900)).min(MAX / 2), // zigzag shrinking
            3 => ((k as i128 * k as i128 * (MAX as i128 - 1) / (n64 as i128 * n64 as i128)) as i64) + noise(-k - 1, 1 + step as u64 / 3).min(1), // parabola
            4 => (1i64 << (noise(-k - 1, 31))) + noise(-k - 7, 1 << 16),                             // heights of all magnitudes
            5 => ((k as u32).reverse_bits()) as i64,                                                 // bit reversal: worst for orderly heaps
            6 => MAX / 2 + (if k % 16 == 7 { 40_000_000 } else { 0 }) + noise(-k - 1, 100_000),      // spikes on a plain
            _ => (k / 64 % 2) * 1_000_000_000 + noise(-k - 1, 1 + (k % 64) as u64 * 1_000_003),      // plateaus getting rougher
        };
        (x, y.clamp(0, MAX))
    }).collect();
    if closed { v.push(v[0]); }
    v
}
fn long_space(name: &str, ns: &'static [usize]) -> Space {
    let dec = move |i: u64| { let mut d = Dec(i); let (c, s) = (d.take(2) == 1, d.take(8)); (ns[d.0 as usize], s, c) };
    Space::new(name, ns.len() as u64 * 16, move |i, cx| { let (n, s, c) = dec(i); check_long(&long_edge(n, s, c), cx) }, move |i| { let (n, s, c) = dec(i); format!("{} edge of {} points, shape {}", if c { "closed" } else { "open" }, n, s) })
}

const G1: &[i64] = &[1];
const G2: &[i64] = &[2, 3, 5, 4, 7, 6, 9, 8, 11, 10, 13, 12, 15, 14, 17, 16];
const PH: &[i64] = &[3, 7, 13, 22, 34, 51, 73, 101, 140, 190];

fn c08_spaces(th: bool) -> Vec<Space> {
    let mut v = vec![
        heights(3, G1, &[0, 1, 2, 3, 5], "even"),
        heights(5, G1, &[0, 1, 2, 4], "even"),
        heights(7, G2, &[0, 1, 3, 7], "uneven"),
        heights(10, G2, &[0, 2, 7], "uneven"),
        heights(14, G2, &[1, 6], "uneven"),
        perms(7, PH, "zigzag"),
        closed(2, 3, 3), closed(3, 3, 3), closed(4, 3, 3), closed(5, 3, 2),
        extreme(3, EXT), extreme(4, EXT),
        long(31, 4), long(63, 4), long(100, 4),
    ];
    v.push(long_space("all-lengths-to-700", { let v: Vec<usize> = (4..700).collect(); Box::leak(v.into_boxed_slice()) }));
    v.push(long_space("very-long", &[5, 8, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258, 511, 513, 777, 1023, 1025, 1026, 2047, 2050, 4095, 4097, 4099, 8193, 20_000, 32_769, 65_535, 65_537, 65_539, 100_000, 131_073, 300_000]));
    if th {
        v.push(long_space("very-long-thorough", &[200_000, 262_145, 600_000, 1_100_000]));
        v.push(long_space("all-lengths-to-3000", { let v: Vec<usize> = (4..3000).collect(); Box::leak(v.into_boxed_slice()) }));
        v.extend(vec![
            heights(9, G2, &[0, 1, 3, 7], "uneven"),
            heights(12, G2, &[0, 2, 7], "uneven"),
            heights(16, G2, &[1, 6], "uneven"),
            heights(8, G1, &[0, 1, 2, 4], "even"),
            perms(9, PH, "zigzag"),
            closed(5, 3, 3), closed(6, 3, 2), closed(4, 4, 3),
            extreme(5, &[0, 1, 4294967294, 4294967295]),
            long(63, 6), long(127, 6),
        ]);
    }
    v
}

// ---- C09: whole topologies
pub fn simplify_checked(cx: &mut Cx, v: &View<u32>, th: u64) -> Result<View<u32>, String> {
    let t = v.realize();
    let s = cx.call("simplifying", move || topogeo::simplify(t, th))?;
    let w = view32(&s)?;
    if w.regions != v.regions { return Err(format!("simplifying with {} changed regions, rings or directions: {} became {}", th, v.show(), w.show())); }
    if w.slots != v.slots { return Err(format!("simplifying with {} changed which rings the edges belong to", th)); }
    if w.edges.len() != v.edges.len() { return Err("simplifying changed the number of edges".into()); }
    for (a, b) in v.edges.iter().zip(&w.edges) {
        let bad = |m: &str| Err(format!("simplifying with {}: edge {:?} became {:?}: {}", th, a, b, m));
        if b.len() < 2 || a[0] != b[0] || a[a.len() - 1] != b[b.len() - 1] { return bad("first or last point lost"); }
        let mut it = a.iter();
        if !b.iter().all(|p| it.any(|q| q == p)) { return bad("not a subsequence"); }
        if a[0] == a[a.len() - 1] && a.len() >= 4 && b.len() < 4 { return bad("closed edge has fewer than four points"); }
    }
    w.connected()?;
    // one edge at a time gives the same
    for (k, a) in v.edges.iter().enumerate() {
        if v.edges.len() == 1 { break; }
        let alone = View { regions: vec![], edges: vec![a.clone()], slots: vec![[None, None]] };
        let t: topogeo::topology::Topology<u32> = alone.realize();
        let s = cx.call("simplifying one edge", move || topogeo::simplify(t, th))?;
        let e: Vec<P> = s.edges[0].points.iter().map(unpt).collect();
        if e != w.edges[k] { return Err(format!("threshold {}: edge {:?} became {:?} in its topology but {:?} alone", th, a, w.edges[k], e)); }
    }
    Ok(w)
}

fn c09(m: &MapCfg, stage: u8, masks: &[M], p: &[PRegion], cx: &mut Cx) -> R {
    let t = crate::topo::build(cx, p)?;
    let t = if stage >= 1 { crate::topo::normalize(cx, &t)? } else { t };
    let t = if stage >= 2 { let mk = masks[0].real(); cx.call("clipping", || topogeo::clip::clip_topology(&t, &mk))? } else { t };
    let _ = m;
    let v = view32(&t)?;
    cx.state(&v);
    // thresholds that matter on these coordinates
    let mut ths: BTreeSet<u64> = [0u64, u64::MAX].into_iter().collect();
    for e in &v.edges { for w in e.windows(3) { let x = tri2(w[0], w[1], w[2]); if x <= u64::MAX as u128 { ths.insert(x as u64); if x > 0 { ths.insert(x as u64 - 1); } } } }
    for th in ths.into_iter().take(8) {
        let w = simplify_checked(cx, &v, th)?;
        cx.state(&w);
        cx.validated += 1;
    }
    Ok(())
}

fn c09_spaces(th: bool) -> Vec<Space> {
    let mut out = vec![];
    for m in family(if th { 1 } else { 0 }).into_iter().chain(larger(if th { 3 } else { 2 })).chain(bulk(0)) {
        for (stage, tag) in [(0u8, "built/"), (1, "normalized/")] {
            let (a, b) = (m.clone(), m.clone());
            out.push(Space::new(format!("{}{}", tag, m.name), m.size(), move |i, cx| { let (_, _, p) = a.decode(i); c09(&a, stage, &[], &p, cx) }, move |i| b.describe(i)));
        }
        let masks = m.masks(true);
        let n = masks.len() as u64;
        let (a, b, ms, ms2) = (m.clone(), m.clone(), masks.clone(), masks);
        out.push(Space::new(format!("clipped/{}", m.name), m.size() * n, move |i, cx| { let (_, _, p) = a.decode(i / n); c09(&a, 2, &[ms[(i % n) as usize]], &p, cx) },
            move |i| format!("{:?} on {}", ms2[(i % n) as usize], b.describe(i / n))));
    }
    out
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C08", level: "model_checking", spaces: c08_spaces },
        Prop { id: "C09", level: "model_checking", spaces: c09_spaces },
    ]
}
