//! The enumerated planar maps: every labelling of small complexes, presented in several ways.
use crate::core::*;
use crate::geom::*;
use std::sync::Arc;

pub const MAX: i64 = u32::MAX as i64;

pub struct MapCfg {
    pub cx: Complex,
    pub alphabet: Vec<Option<(u32, u32)>>,
    /// How outlines are traced at touching points (0, 1, 2, 5..=10); 3 = every face is a ring of its own.
    pub turns: Vec<u8>,
    pub name: String,
    /// The labellings to explore; None = all.
    pub table: Option<Vec<Vec<usize>>>,
}
pub type Map = Arc<MapCfg>;

/// "0AaBbC": '0' nothing, upper case letter = region, first group; lower case = its second group.
pub fn alpha(s: &str) -> Vec<Option<(u32, u32)>> {
    s.chars().map(|c| match c {
        '0' => None,
        'A'..='Z' => Some((c as u32 - 'A' as u32 + 1, 0)),
        'a'..='z' => Some((c as u32 - 'a' as u32 + 1, 1)),
        _ => panic!(),
    }).collect()
}
pub fn cfg(cx: Complex, a: &str, turns: &[u8]) -> Map {
    Arc::new(MapCfg { name: format!("{}/{}/{:?}", cx.name, a, turns).replace(' ', ""), alphabet: alpha(a), turns: turns.to_vec(), cx, table: None })
}
impl MapCfg {
    pub fn size(&self) -> u64 { if let Some(t) = &self.table { return t.len() as u64 * self.turns.len() as u64; } pow(self.alphabet.len() as u64, self.cx.faces.len() as u32) * self.turns.len() as u64 }
    pub fn decode(&self, idx: u64) -> (LMap, u8, Vec<PRegion>) {
        let mut d = Dec(idx);
        let turn = *d.pick(&self.turns);
        let n = self.alphabet.len() as u64;
        let labels: Vec<usize> = match &self.table { Some(t) => t[d.0 as usize].clone(), None => (0..self.cx.faces.len()).map(|_| d.take(n) as usize).collect() };
        let m = LMap::new(&labels, &self.alphabet);
        let p = if turn == 3 { m.present_faces(&self.cx) } else { m.present(&self.cx, turn) };
        (m, turn, p)
    }
    /// Mask lines through vertices, between vertices and outside the map, on both axes and both senses.
    pub fn masks(&self, few: bool) -> Vec<M> {
        let mut out = vec![];
        for axis in 0..2u64 {
            let mut cs: Vec<i64> = self.cx.verts.iter().map(|p| if axis == 0 { p.0 } else { p.1 }).collect();
            cs.sort_unstable(); cs.dedup();
            let mut vs: Vec<i64> = vec![];
            for w in cs.windows(2) { vs.push(w[0]); let m = w[0] + (w[1] - w[0]) / 2; if m != w[0] { vs.push(m); } if w[1] - w[0] > 3 { vs.push(w[0] + 1); } }
            vs.push(cs[cs.len() - 1]);
            if few { vs = vec![vs[1], cs[cs.len() / 2], cs[cs.len() - 2] + (cs[cs.len() - 1] - cs[cs.len() - 2]) / 2]; }
            else { if cs[0] > 0 { vs.push(cs[0] - 1); vs.push(0); } if cs[cs.len() - 1] < MAX { vs.push(cs[cs.len() - 1] + 1); vs.push(MAX); } }
            vs.sort_unstable(); vs.dedup();
            for v in vs { for k in 0..2 { out.push(M::kind(axis * 2 + k, v)); } }
        }
        out
    }
    pub fn describe(&self, idx: u64) -> String { let (_, t, p) = self.decode(idx); format!("[trace rule {}] {}", t, show_regions(&p)) }
}

pub fn sq(w: usize, h: usize) -> Complex {
    let xs: Vec<i64> = (0..=w as i64).map(|i| 2 + 4 * i).collect();
    let ys: Vec<i64> = (0..=h as i64).map(|i| 2 + 4 * i).collect();
    grid(&format!("sq{}x{}", w, h), &xs, &ys, Diag::None, &[])
}
pub fn tri(w: usize, h: usize, d: Diag) -> Complex {
    let xs: Vec<i64> = (0..=w as i64).map(|i| 2 + 4 * i).collect();
    let ys: Vec<i64> = (0..=h as i64).map(|i| 2 + 4 * i).collect();
    grid(&format!("tri{:?}{}x{}", d, w, h), &xs, &ys, d, &[])
}
/// Spans the whole u32 range.
pub fn huge(d: Diag) -> Complex { grid(&format!("huge{:?}", d), &[0, 1 << 31, MAX], &[0, (1 << 31) + 1, MAX], d, &[]) }
pub fn huge3() -> Complex { grid("hugeNone3x3", &[0, 1 << 30, 3 << 30, MAX], &[0, 1, MAX - 1, MAX], Diag::None, &[]) }
/// General position: no two vertices aligned, no symmetry.
pub fn skew(d: Diag) -> Complex {
    grid(&format!("skew{:?}", d), &[10, 20, 30], &[10, 20, 30], d,
        &[(0, 0, (11, 9)), (1, 0, (19, 12)), (2, 0, (32, 10)), (0, 1, (8, 21)), (1, 1, (21, 18)), (2, 1, (29, 22)), (0, 2, (12, 31)), (1, 2, (18, 29)), (2, 2, (31, 33))])
}

/// Wedges that all meet at the leftmost point of the map, in `layers` one behind the other.
pub fn fan(n: usize, layers: usize) -> Complex {
    let h = 8 * n as i64;
    let apex = (2, 2 + h / 2);
    let mut verts = vec![apex];
    for l in 1..=layers as i64 { for k in 0..=n as i64 { verts.push((2 + l * (h + 6 * (k % 3)), apex.1 + (8 * k - h / 2) * l)); } }
    let lift = verts.iter().map(|p| p.1).min().unwrap().min(0);
    for p in verts.iter_mut() { p.1 += 3 - lift; }
    let at = |l: usize, k: usize| 1 + l * (n + 1) + k;
    let mut faces = vec![];
    for k in 0..n { faces.push(vec![0, at(0, k), at(0, k + 1)]); for l in 1..layers { faces.push(vec![at(l - 1, k), at(l, k), at(l, k + 1), at(l - 1, k + 1)]); } }
    let cx = Complex { name: format!("fan{}x{}", n, layers), verts, faces };
    for f in 0..cx.faces.len() { assert!(area2(&cx.poly(f)) > 0, "{} face {}", cx.name, f); }
    cx
}
/// Many wedges: every labelling (a k + b) mod m of them by a few labels.
pub fn wide_fan(n: usize, layers: usize, turns: &[u8]) -> Map {
    let c = fan(n, layers);
    let mut table: Vec<Vec<usize>> = vec![];
    for m in 2..=5usize { for a in 1..m { for b in 0..m { for legend in [[0usize, 1, 3, 2, 4], [1, 3, 0, 1, 3], [1, 0, 3, 0, 0], [1, 2, 0, 3, 1]] {
        table.push((0..c.faces.len()).map(|f| legend[(a * (f / layers) + b + f % layers * (b + 1)) % m]).collect());
    } } } }
    table.sort_unstable(); table.dedup();
    Arc::new(MapCfg { name: format!("{}/{:?}", c.name, turns).replace(' ', ""), alphabet: alpha("0AaBb"), turns: turns.to_vec(), cx: c, table: Some(table) })
}

/// Outlines that part at some touching points and run on at others.
pub const MIXED: &[u8] = &[5, 6, 7, 8, 9, 10];

/// The standard family of maps. `level`: 0 = small (for costly oracles), 1 = quick, 2 = thorough.
pub fn family(level: u8) -> Vec<Map> {
    use Diag::*;
    let mut v = vec![
        cfg(sq(2, 2), "0AaBC", &[0, 3]),
        cfg(tri(1, 1, Cross), "0AaBb", &[0, 1, 2, 3]),
        cfg(sq(3, 2), "0AaB", &[0, 1, 3]),
        cfg(sq(3, 3), "0A", &[0, 1, 2, 3]),
        cfg(sq(3, 3), "AaB", &[0]),
        cfg(tri(2, 2, Alt), "0AB", &[0, 1, 2, 3]),
        cfg(huge(Down), "0AB", &[0, 3]),
        cfg(skew(Up), "0AB", &[0, 1]),
    ];
    v.push(cfg(fan(5, 1), "0AaB", &[0, 1, 2, 3, 6]));
    v.push(cfg(fan(3, 2), "0AB", &[0, 1, 2, 3, 5]));
    v.push(cfg(tri(2, 1, Cross), "0A", MIXED));
    v.push(cfg(sq(3, 3), "0A", MIXED));
    if level >= 1 {
        v.extend([
            cfg(fan(6, 1), "0AaBb", &[0, 1, 2]),
            cfg(fan(3, 2), "0AaB", &[0, 1, 2, 7]),
            cfg(tri(2, 1, Cross), "0AB", MIXED),
            cfg(tri(2, 2, Alt), "0AB", MIXED),
            cfg(sq(4, 4), "0A", MIXED),
            cfg(sq(3, 2), "0AaBb", &[0, 1, 2]),
            cfg(sq(3, 2), "0ABCD", &[0]),
            cfg(sq(3, 3), "0Aa", &[0, 1, 2]),
            cfg(sq(3, 3), "0AB", &[0, 1, 2, 3]),
            cfg(sq(3, 3), "0AaB", &[0]),
            cfg(tri(2, 2, Alt), "0AaB", &[0, 1]),
            cfg(tri(2, 2, Down), "0ABC", &[0]),
            cfg(tri(2, 1, Cross), "0AaB", &[0, 2]),
            cfg(sq(4, 4), "0A", &[0, 1, 2, 3]),
            cfg(sq(4, 4), "AB", &[0, 1]),
            cfg(huge(Alt), "0AaB", &[0]),
            cfg(huge3(), "0AB", &[0]),
            cfg(skew(Down), "0AaB", &[0]),
        ]);
    }
    if level >= 2 {
        v.extend([
            cfg(sq(3, 3), "0AB", MIXED),
            cfg(fan(4, 2), "0AaB", &[0, 1, 2, 3, 5, 8]),
            cfg(fan(3, 3), "0AB", &[0, 1, 2, 3, 6]),
            cfg(tri(2, 2, Cross), "0A", MIXED),
            cfg(tri(3, 3, Alt), "0A", MIXED),
            cfg(sq(5, 4), "0A", MIXED),
            cfg(sq(3, 3), "0AaBb", &[0, 1, 2]),
            cfg(sq(3, 3), "0ABC", &[0, 3]),
            cfg(tri(3, 2, Alt), "0AB", &[0, 1, 2, 3]),
            cfg(tri(3, 2, Down), "0Aa", &[0, 1, 2]),
            cfg(tri(3, 3, Alt), "0A", &[0, 1, 2, 3]),
            cfg(tri(3, 3, Alt), "AB", &[0, 1, 2]),
            cfg(tri(2, 2, Alt), "0AaBb", &[0, 1, 2]),
            cfg(tri(2, 2, Cross), "0A", &[0, 1, 2, 3]),
            cfg(tri(2, 2, Cross), "AB", &[0, 1]),
            cfg(sq(4, 3), "0AB", &[0, 1, 2]),
            cfg(sq(4, 3), "AaB", &[0]),
            cfg(sq(5, 4), "0A", &[0, 1]),
            cfg(sq(5, 4), "AB", &[0]),
            cfg(huge(Up), "0AaBb", &[0]),
            cfg(skew(Alt), "0AaBb", &[0]),
        ]);
    }
    v
}

/// Larger maps than all-labellings can reach: every labelling (a i + b j + c i j) mod k of a w x h grid, and a list of
/// telling shapes (spirals, combs, nested frames, sieves, one region per cell in several orders).
/// `step`: distance of grid lines; 0 = the whole u32 range with uneven distances.
pub fn patterned(w: usize, h: usize, d: Diag, step: i64, turns: &[u8], shapes_only: bool) -> Map {
    let axis = |n: usize, seed: i64| -> Vec<i64> { (0..=n as i64).map(|i| if step > 0 { 3 + step * i } else if i == n as i64 { MAX } else if i == 0 { 0 } else { MAX / n as i64 * i + (i * seed) % 7 }).collect() };
    let c = grid(&format!("pattern{:?}{}x{}s{}", d, w, h, step), &axis(w, 3), &axis(h, 5), d, &[]);
    let per = c.faces.len() / (w * h);
    // alphabet: nothing, A, a, B, b, then one region per cell
    let mut alphabet: Vec<Option<(u32, u32)>> = vec![None, Some((1, 0)), Some((1, 1)), Some((2, 0)), Some((2, 1))];
    for k in 0..(w * h) as u32 { alphabet.push(Some((3 + k, 0))); }
    let mut table: Vec<Vec<usize>> = vec![];
    let mut add = |f: &dyn Fn(usize, usize, usize) -> usize| table.push((0..c.faces.len()).map(|x| f(x / per % w, x / per / w, x % per)).collect());
    if !shapes_only {
        // values of the form, as labels
        let legend: [[usize; 4]; 4] = [[0, 1, 3, 5], [1, 2, 3, 0], [3, 1, 0, 2], [1, 0, 2, 4]];
        for k in 2..=4usize { for a in 0..k { for b in 0..k { for cc in 0..k { for l in &legend { add(&|i, j, t| l[(a * i + b * j + cc * i * j + t * (cc + 1)) % k]); } } } } }
    }
    let ring = |i: usize, j: usize| i.min(j).min(w - 1 - i).min(h - 1 - j);
    let n = w * h;
    // one region per cell, numbered in several orders
    let stride = (2..n).find(|s| { let (mut a, mut b) = (*s, n); while b > 0 { let t = a % b; a = b; b = t; } a == 1 && *s * *s > n }).unwrap_or(1);
    add(&|i, j, _| 5 + j * w + i);
    add(&|i, j, _| 5 + n - 1 - (j * w + i));
    add(&|i, j, _| 5 + i * h + j);
    add(&|i, j, _| 5 + (j * w + i) * stride % n);
    // nested frames: alternating, with gaps, each its own region, outside in and inside out
    add(&|i, j, _| [1, 3][ring(i, j) % 2]);
    add(&|i, j, _| [1, 0][ring(i, j) % 2]);
    add(&|i, j, _| [0, 1][ring(i, j) % 2]);
    add(&|i, j, _| [1, 3, 0, 2][ring(i, j) % 4]);
    add(&|i, j, _| 5 + ring(i, j));
    add(&|i, j, _| 5 + n - 1 - ring(i, j));
    // sieves: holes, enclaves, islands in lakes, pieces around holes
    for hole in [0usize, 3, 2] { for piece in 0..3 { add(&|i, j, _| if i % 2 == 1 && j % 2 == 1 && i + 1 < w && j + 1 < h { hole } else { match piece { 0 => 1, 1 => 1 + (i + j) / 3 % 2, _ => 1 + i % 2 } }); } }
    add(&|i, j, _| if i % 2 == 1 && j % 2 == 1 { 5 + j * w + i } else { 1 });
    add(&|i, j, _| if i % 3 == 1 && j % 3 == 1 { 3 } else if i % 3 != 0 || j % 3 != 0 { 0 } else { 1 });
    // combs and stripes
    add(&|i, j, _| if j == 0 || i % 2 == 0 { 1 } else { 0 });
    add(&|i, j, _| if j == 0 || (i % 2 == 0 && j + 1 < h) { 1 } else { 3 });
    add(&|i, j, _| if i % 2 == 0 { if j + 1 == h { 0 } else { 1 } } else if j == 0 { 0 } else { 3 });
    add(&|i, _, _| 5 + i);
    add(&|_, j, _| 5 + n - 1 - j);
    // a snake and a spiral, alone and against their complement
    let snake = |i: usize, j: usize| j % 2 == 0 || (j % 4 == 1 && i + 1 == w) || (j % 4 == 3 && i == 0);
    let spiral: Vec<bool> = {
        let mut s = vec![false; n];
        let (mut x, mut y, mut dx, mut dy) = (0i64, 0i64, 1i64, 0i64);
        let inside = |x: i64, y: i64| x >= 0 && y >= 0 && x < w as i64 && y < h as i64;
        let mut turns = 0;
        while turns < 2 {
            s[y as usize * w + x as usize] = true;
            let (x1, y1, x2, y2) = (x + dx, y + dy, x + 2 * dx, y + 2 * dy);
            if !inside(x1, y1) || s[y1 as usize * w + x1 as usize] || (inside(x2, y2) && s[y2 as usize * w + x2 as usize]) { let t = dx; dx = -dy; dy = t; turns += 1; } else { x = x1; y = y1; turns = 0; }
        }
        s
    };
    for other in [0usize, 3, 2] {
        add(&|i, j, _| if snake(i, j) { 1 } else { other });
        add(&|i, j, _| if spiral[j * w + i] { 1 } else { other });
        add(&|i, j, _| if spiral[j * w + i] { other } else { 1 });
    }
    // pieces that only together enclose something
    add(&|i, j, _| if i > 0 && j > 0 && i + 1 < w && j + 1 < h { if (i + j) % 3 == 0 { 3 } else { 0 } } else if (i + j) % 2 == 0 { 1 } else { 2 });
    table.sort_unstable();
    table.dedup();
    Arc::new(MapCfg { name: format!("{}/{:?}{}", c.name, turns, if shapes_only { "/shapes" } else { "" }).replace(' ', ""), alphabet, turns: turns.to_vec(), cx: c, table: Some(table) })
}
/// The larger maps: 0 = for costly checks, 1 = quick, 2 = thorough.
pub fn larger(level: u8) -> Vec<Map> {
    use Diag::*;
    let mut v = vec![patterned(5, 5, None, 4, &[0, 3], false), patterned(6, 4, Alt, 2, &[0], true), wide_fan(24, 1, &[0, 1]), wide_fan(45, 2, &[0])];
    if level >= 1 { v.extend([patterned(7, 6, None, 1, &[0, 1, 2, 3], false), patterned(5, 5, Cross, 4, &[0, 2], false), patterned(6, 7, Down, 0, &[0, 5, 3], false), patterned(17, 16, None, 2, &[0, 6], true)]); }
    if level >= 2 { v.extend([patterned(9, 11, Alt, 0, &[0, 1, 2, 3, 5, 8], false), patterned(12, 12, None, 6, &[0, 1, 2, 3, 6], false), patterned(24, 23, None, 2, &[0, 3], true)]); }
    if level >= 3 { v.extend([patterned(16, 13, Cross, 2, &[0, 2, 3], false), patterned(20, 20, None, 0, &[0, 1, 2, 3, 7], false), patterned(50, 47, None, 2, &[0], true), patterned(31, 33, Down, 1, &[0, 5], true)]); }
    v
}

/// Maps of tens of thousands of cells and segments, and more than 2^16 edges: only the shapes. 0 = one presentation.
pub fn bulk(level: u8) -> Vec<Map> {
    use Diag::*;
    if level == 0 { return vec![patterned(190, 181, None, 400, &[0], true)]; }
    vec![patterned(190, 181, None, 400, &[0, 3, 6], true), patterned(101, 90, Alt, 30, &[0], true), patterned(300, 120, None, 0, &[0], true)]
}
