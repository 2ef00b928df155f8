//! C01: areas, winding orders and the two storage forms of rings.
use crate::core::*;
use crate::geom::*;
use crate::Prop;
use topogeo::geo;
use topogeo::geo::{Edge, Point, Ring, WindingOrder};

fn want(ps: &[P]) -> (u128, bool) {
    // over the segments actually present (ps includes the closing point)
    let a = open_area(ps);
    (a.unsigned_abs(), a >= 0)
}
fn open_area(ps: &[P]) -> i128 { ps.windows(2).map(|w| w[0].0 as i128 * w[1].1 as i128 - w[1].0 as i128 * w[0].1 as i128).sum() }
fn got(r: (u128, WindingOrder)) -> (u128, bool) { (r.0, r.1 == WindingOrder::Clockwise) }

fn ring_ok(what: &str, r: &Ring, ps: &[P], cx: &mut Cx) -> R {
    let w = want(ps);
    let (a, b, c, pts) = cx.call("measuring a ring", || { let x = r.area2_and_winding_order(); ((x.0 as u128, x.1), r.area2() as u128, r.winding_order(), r.points()) })?;
    if got(a) != w || b != w.0 || (c == WindingOrder::Clockwise) != w.1 {
        return Err(format!("{} of {:?}: doubled area {} / {} and winding {:?} / {:?}, expected {} and {}", what, ps, a.0, b, a.1, c, w.0, if w.1 { "Clockwise" } else { "CounterClockwise" }));
    }
    let pts: Vec<P> = pts.iter().map(unpt).collect();
    if pts != ps { return Err(format!("{} of {:?} has points {:?}", what, ps, pts)); }
    Ok(())
}

/// `open`: the ring without its closing point.
fn check(open: &[P], cuts_max: usize, cx: &mut Cx) -> R {
    let n = open.len();
    let mut ps = open.to_vec();
    ps.push(open[0]);
    let pts: Vec<Point> = ps.iter().map(|&p| pt(p)).collect();
    let w = want(&ps);
    if w.0 != area2(open).unsigned_abs() { return Err("harness".into()); }
    cx.state(&(w, n));
    cx.note(if w.0 == 0 { "zero area" } else if w.1 { "clockwise" } else { "counter-clockwise" });
    // free functions
    let (s, a, b, c) = cx.call("measuring points", || (geo::signed_area2(pts.iter()) as i128, geo::area2_and_winding_order(pts.iter()), geo::area2(pts.iter()) as u128, geo::winding_order(pts.iter())))?;
    if s != area2(open) { return Err(format!("signed doubled area of {:?} is {}, expected {}", ps, s, area2(open))); }
    if got((a.0 as u128, a.1)) != w || b != w.0 || (c == WindingOrder::Clockwise) != w.1 { return Err(format!("points {:?}: {:?} / {} / {:?}, expected {:?}", ps, a, b, c, w)); }
    // stored as points
    let r = Ring::Points(pts.clone().into_boxed_slice());
    ring_ok("point ring", &r, &ps, cx)?;
    let es = cx.call("edges of a point ring", || r.edges())?;
    ring_ok("edges() of point ring", &Ring::Edges(es), &ps, cx)?;
    // stored as edges, cut in every way
    if n <= cuts_max {
        for cut in 0..1u64 << (n - 1) {
            let mut es: Vec<Edge> = vec![];
            let mut from = 0;
            for i in 1..=n { if i == n || cut >> (i - 1) & 1 == 1 { es.push(Edge(pts[from..=i].to_vec().into_boxed_slice())); from = i; } }
            let shapes: Vec<Vec<Point>> = es.iter().map(|e| e.0.to_vec()).collect();
            let r = Ring::Edges(es.into_boxed_slice());
            ring_ok(&format!("edge ring (cut {:b})", cut), &r, &ps, cx)?;
            let back = cx.call("edges of an edge ring", || r.edges())?;
            if back.iter().map(|e| e.0.to_vec()).collect::<Vec<_>>() != shapes { return Err(format!("edges() of an edge ring changed its edges: {:?}", back)); }
            cx.validated += 1;
        }
    }
    if n > cuts_max && n > 40 {
        // long rings: cut regularly, and at one place
        for step in [1, 2, 3, 7, 8, 16, 64, 127, 128, 129, 255, 256, 257, n / 2 + 1, n - 1] {
            let r = ring_edges(&PRing { pts: open.to_vec() }, step);
            ring_ok(&format!("ring cut into edges of {} segments", step), &r, &ps, cx)?;
            cx.validated += 1;
        }
    }
    // pieces of the path add up
    let few = |k: &usize| n < 200 || *k < 3 || k % (n / 4) == 0 || *k + 3 > n;
    for k in (0..=n).filter(few) {
        let t = cx.call("measuring pieces", || geo::signed_area2(pts[..=k].iter()) as i128 + geo::signed_area2(pts[k..].iter()) as i128)?;
        if t != s { return Err(format!("pieces of {:?} split at {} add up to {}, not {}", ps, k, t, s)); }
        let o = cx.call("measuring a piece", || geo::signed_area2(pts[..=k].iter()) as i128)?;
        if o != open_area(&ps[..=k]) { return Err(format!("signed doubled area of {:?} is {}, expected {}", &ps[..=k], o, open_area(&ps[..=k]))); }
    }
    // rotations and reversal
    for k in (0..n).filter(few) {
        let mut q: Vec<Point> = (0..n).map(|i| pts[(i + k) % n]).collect();
        q.push(q[0]);
        let a = cx.call("measuring", || geo::signed_area2(q.iter()) as i128)?;
        q.reverse();
        let b = cx.call("measuring", || geo::signed_area2(q.iter()) as i128)?;
        if a != s || b != -s { return Err(format!("{:?} rotated by {}: {} and reversed {}, expected {} and {}", ps, k, a, b, s, -s)); }
        let rev = cx.call("measuring", || Ring::Points(q.clone().into_boxed_slice()).winding_order())?;
        if (rev == WindingOrder::Clockwise) != (-s >= 0) { return Err(format!("reversed {:?} winds {:?}", ps, rev)); }
    }
    cx.validated += 1;
    Ok(())
}

fn lat(name: &str, xs: &[i64], ys: &[i64], k: usize, cuts: usize) -> Space {
    let pts: Vec<P> = xs.iter().flat_map(|&x| ys.iter().map(move |&y| (x, y))).collect();
    let n = pts.len() as u64;
    let dec = move |i: u64| { let mut d = Dec(i); (0..k).map(|_| *d.pick(&pts)).collect::<Vec<P>>() };
    let dec2 = dec.clone();
    Space::new(name, pow(n, k as u32), move |i, cx| check(&dec(i), cuts, cx), move |i| format!("ring {:?}", dec2(i)))
}
/// The full-range square wound round many times, either way, from each corner, with extra points.
fn winding() -> Space {
    const M: i64 = u32::MAX as i64;
    let dec = |i: u64| {
        let mut d = Dec(i);
        let (turns, start, rev, mid) = (d.take(70) as usize + 1, d.take(4) as usize, d.take(2) == 1, d.take(3) as i64);
        let c = [(0, 0), (M, 0), (M, M), (0, M)];
        let mut v: Vec<P> = vec![];
        for k in 0..turns * 4 {
            let p = c[(start + k) % 4];
            v.push(p);
            if mid > 0 { let q = c[(start + k + 1) % 4]; v.push((((p.0 + q.0) / 2 + mid).min(M), ((p.1 + q.1) / 2 + mid).min(M))); }
        }
        if rev { v.reverse(); }
        v
    };
    Space::new("many-turns", 70 * 4 * 2 * 3, move |i, cx| check(&dec(i), 0, cx), move |i| { let v = dec(i); format!("{} points {:?}...", v.len(), &v[..4]) })
}

/// Long rings with points in the middle of the range, at its end, or jumping across it.
fn long(name: &str, ns: Vec<usize>) -> Space {
    const M: i64 = u32::MAX as i64;
    let size = ns.len() as u64 * 12;
    let dec = move |i: u64| {
        let mut d = Dec(i);
        let (pat, scale, n) = (d.take(4), d.take(3), ns[d.0 as usize]);
        let big = [1, 40_000, M / 400_000][scale as usize];
        (0..n as i64).map(|j| { let (x, y) = match pat { 0 => (j, j % 2), 1 => (j % 5 * 7, j * j % 11), 2 => if j < n as i64 / 2 { (j, 0) } else { (n as i64 - j, 3) }, _ => (j * j % 1013, j * 31 % 509) }; let f = |v: i64| if scale == 2 { M - (v * big) % M } else { v * big % M }; (f(x), f(y)) }).collect::<Vec<P>>()
    };
    let dec2 = dec.clone();
    Space::new(name, size, move |i, cx| check(&dec(i), 0, cx), move |i| { let v = dec2(i); format!("{} points {:?}...", v.len(), &v[..4]) })
}

pub fn spaces(th: bool) -> Vec<Space> {
    let ext = [0, 1, (1 << 31) - 1, 1 << 31, (1i64 << 32) - 2, (1 << 32) - 1];
    let e4 = [0, (1 << 31) - 1, 1 << 31, (1i64 << 32) - 1];
    let mut v = vec![
        lat("one-point", &[0, 3, 4294967295], &[0, 2, 4294967295], 1, 6),
        lat("two-points", &[0, 1, 3, 4294967295], &[0, 2, 4294967295], 2, 6),
        lat("triangles-5x5", &[0, 1, 2, 5, 7], &[0, 1, 3, 4, 7], 3, 6),
        lat("four-points-3x3", &[0, 1, 3], &[0, 1, 3], 4, 6),
        lat("five-points-3x3", &[0, 1, 3], &[0, 2, 3], 5, 6),
        lat("six-points-2x3", &[1, 4], &[0, 2, 3], 6, 6),
        lat("extreme-triangles", &ext, &ext, 3, 6),
        lat("extreme-quads", &e4, &e4, 4, 6),
        winding(),
        long("long-to-300", (7..=300).collect()),
        long("very-long", vec![511, 512, 513, 1023, 1025, 4096, 32767, 32769, 65535, 65536, 65537, 100_000]),
    ];
    v.extend([
        lat("six-points-3x3", &[0, 1, 3], &[0, 2, 3], 6, 6),
        lat("seven-points-2x3", &[1, 4], &[0, 2, 3], 7, 7),
        lat("four-points-4x4", &[0, 1, 3, 7], &[0, 1, 3, 4], 4, 6),
        lat("five-points-4x3", &[0, 1, 3, 7], &[0, 1, 3], 5, 6),
        lat("extreme-quads-6", &ext, &ext, 4, 6),
        lat("extreme-five", &[0, 1 << 31, (1 << 32) - 1], &[0, (1 << 31) - 1, (1 << 32) - 1], 5, 6),
    ]);
    if th {
        v.extend([
            lat("seven-points-3x3", &[0, 1, 3], &[0, 2, 3], 7, 7),
            lat("five-points-4x4", &[0, 1, 3, 7], &[0, 1, 3, 4], 5, 6),
            lat("nine-points-2x2", &[1, 4], &[0, 3], 9, 9),
            lat("extreme-six", &[0, (1 << 32) - 1], &[0, 1 << 31, (1 << 32) - 1], 6, 6),
            lat("extreme-five-16", &e4, &e4, 5, 6),
            long("long-to-2000", (7..=2000).collect()),
        ]);
    }
    v
}

pub fn props() -> Vec<Prop> { vec![Prop { id: "C01", level: "model_checking", spaces }] }
