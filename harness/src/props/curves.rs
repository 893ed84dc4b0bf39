//! C17 convex hull, C18 Douglas-Peucker, C24 interpolation and factories.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::props::spatial::pos;
use rust_3d::*;
use std::collections::{BTreeSet, VecDeque};

fn is_exact(v: &[Point2D]) -> bool { v.iter().all(|q| q.x.abs() < 1e6 && q.y.abs() < 1e6 && q.x * 8.0 == (q.x * 8.0).trunc() && q.y * 8.0 == (q.y * 8.0).trunc()) }
fn ip(q: &Point2D) -> (i128, i128) { ((q.x * 8.0) as i128, (q.y * 8.0) as i128) }
fn orient(a: (i128, i128), b: (i128, i128), c: (i128, i128)) -> i128 { (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0) }

/// strict hull vertices counter-clockwise by gift wrapping over exact integers
fn jarvis(v: &[(i128, i128)]) -> Vec<(i128, i128)> {
    let set: BTreeSet<(i128, i128)> = v.iter().cloned().collect();
    let p: Vec<(i128, i128)> = set.into_iter().collect();
    if p.len() < 2 { return p; }
    let d2 = |a: (i128, i128), b: (i128, i128)| (a.0 - b.0) * (a.0 - b.0) + (a.1 - b.1) * (a.1 - b.1);
    let start = p[0];
    let mut out = vec![start];
    let mut cur = start;
    loop {
        let mut best = if p[0] == cur { p[1] } else { p[0] };
        for q in &p {
            if *q == cur { continue; }
            let o = orient(cur, best, *q);
            if o < 0 || (o == 0 && d2(cur, *q) > d2(cur, best)) { best = *q; }
        }
        if best == start || out.len() > p.len() { break; }
        out.push(best);
        cur = best;
    }
    out
}
fn polygonish(ctx: &mut Ctx) -> Vec<Point2D> {
    let d = *ctx.rng.pick(&DISTS);
    let n = match ctx.rng.below(8) { 0 => ctx.rng.below(4), 1 => size(ctx, 1500), _ => ctx.rng.below(60) };
    match ctx.rng.below(8) {
        0 => {
            // many points on few lines, exact
            let (dx, dy) = (ctx.rng.range(-3, 3) as f64, ctx.rng.range(-3, 3) as f64);
            (0..n).map(|_| { let t = ctx.rng.range(-20, 20) as f64; Point2D { x: 1.0 + dx * t, y: -2.0 + dy * t } }).collect()
        }
        1 => (0..n).map(|_| { let t = ctx.rng.range(-30, 30) as f64; Point2D { x: t, y: t * t / 8.0 } }).collect(),
        2 => {
            // rectangle border
            let (w, h) = (ctx.rng.range(1, 9) as f64, ctx.rng.range(1, 9) as f64);
            (0..n).map(|_| { let t = ctx.rng.range(0, 8) as f64 / 8.0; match ctx.rng.below(4) { 0 => Point2D { x: 0.0, y: t * h }, 1 => Point2D { x: w, y: t * h }, 2 => Point2D { x: t * w, y: 0.0 }, _ => Point2D { x: t * w, y: h } } }).collect()
        }
        3 => (0..n).map(|_| { let a = ctx.rng.f(0.0, 6.3); Point2D { x: a.cos() * 50.0, y: a.sin() * 50.0 } }).collect(),
        _ => cloud2(ctx, n, d),
    }
}
fn hull(ctx: &mut Ctx) -> R {
    let mut v = polygonish(ctx);
    // the scale does not matter
    let exact = is_exact(&v);
    let k = if exact && ctx.rng.chance(1, 3) { ctx.count("scaled_hulls", 1); if ctx.rng.bool() { ctx.rng.range(-60, 60) as i32 } else { ctx.rng.range(-450, 450) as i32 } } else { 0 };
    let scaled = |q: &Point2D, k: i32| Point2D { x: q.x * 2f64.powi(k), y: q.y * 2f64.powi(k) };
    for q in v.iter_mut() { *q = scaled(q, k); }
    let v = v;
    fp2(ctx, &v);
    if ctx.want_desc { let s = show2(&v); ctx.note(s); }
    let n = v.len();
    let h: Vec<Point2D> = match ctx.rng.below(3) {
        0 => convex_hull_2d(&v),
        1 => convex_hull_2d(&PointCloud2D { data: v.clone() }),
        _ => convex_hull_2d(&v.iter().cloned().collect::<VecDeque<_>>()),
    };
    ctx.count("hulls", 1);
    let ins: BTreeSet<[u64; 2]> = v.iter().map(k2).collect();
    for q in &h { ensure!(ins.contains(&k2(q)), "hull-foreign", "hull vertex {:?} is no input point; {}", q, show2(&v)); }
    if exact {
        let ip = |q: &Point2D| ip(&scaled(q, -k));
        let want = jarvis(&v.iter().map(ip).collect::<Vec<_>>());
        let got: Vec<(i128, i128)> = h.iter().map(ip).collect();
        ensure!(got.len() == want.len(), "hull-count", "the hull of {} has {} vertices, expected {}: {} instead of {:?}/8", show2(&v), got.len(), want.len(), show2(&h), want);
        if !want.is_empty() {
            let k = got.iter().position(|g| *g == want[0]);
            let k = match k { Some(k) => k, None => return fail("hull-vertex", format!("hull of {} misses {:?}/8: {}", show2(&v), want[0], show2(&h))) };
            for i in 0..want.len() { ensure!(got[(k + i) % got.len()] == want[i], "hull-order", "hull of {} is {}, expected {:?}/8 counter-clockwise", show2(&v), show2(&h), want); }
        }
        if want.len() < 3 { ctx.count("flat_hulls", 1); } else { ctx.count("exact_hulls", 1); ctx.nontrivial = n > want.len(); }
        return Ok(());
    }
    let scale = v.iter().map(|q| q.x.abs().max(q.y.abs())).fold(0.0, f64::max);
    let uniq: BTreeSet<[u64; 2]> = h.iter().map(k2).collect();
    ensure!(uniq.len() == h.len(), "hull-repeat", "a vertex appears twice in the hull {}", show2(&h));
    ensure!(!h.is_empty(), "hull-empty", "the hull of {} is empty", show2(&v));
    let m = h.len();
    for i in 0..m {
        let (a, b) = (&h[i], &h[(i + 1) % m]);
        let l = d2(a, b);
        if m == 1 || l == 0.0 { continue; }
        for q in &v {
            let c = ((b.x - a.x) * (q.y - a.y) - (b.y - a.y) * (q.x - a.x)) / l;
            ensure!(c >= -1e-12 * scale || m == 2 && c.abs() <= 1e-12 * scale, "hull-outside", "{:?} lies {} outside of the hull edge {:?} {:?}", q, -c, a, b);
        }
    }
    // extreme positions are hull vertices
    let ext = |g: fn(&Point2D) -> f64| (v.iter().map(g).fold(f64::INFINITY, f64::min), v.iter().map(g).fold(f64::NEG_INFINITY, f64::max), h.iter().map(g).fold(f64::INFINITY, f64::min), h.iter().map(g).fold(f64::NEG_INFINITY, f64::max));
    for e in [ext(|q| q.x), ext(|q| q.y)].iter() { ensure!(e.0 == e.2 && e.1 == e.3, "hull-extent", "extent of the input {:?} but of the hull {:?}", (e.0, e.1), (e.2, e.3)); }
    ctx.count("float_hulls", 1);
    ctx.nontrivial = n > m;
    Ok(())
}

// ---------------------------------------------------------------- C18
fn line_dist(p: &Point2D, a: &Point2D, b: &Point2D) -> f64 {
    let l = d2(a, b);
    if l == 0.0 { return d2(p, a); }
    (((b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x)) / l).abs()
}
fn path(ctx: &mut Ctx) -> Vec<Point2D> {
    let long = !ctx.tiny && ctx.rng.chance(1, 1000);
    let n = match ctx.rng.below(8) { _ if long => { ctx.count("long_paths", 1); 300 + ctx.rng.below(4000) } 0 => ctx.rng.below(4), 1 => ctx.rng.below(300), _ => ctx.rng.below(40) };
    let mut v: Vec<Point2D> = match if long { 1 } else { ctx.rng.below(7) } {
        0 => { let mut q = Point2D { x: 0., y: 0. }; (0..n).map(|_| { q.x += ctx.rng.range(-2, 3) as f64; q.y += ctx.rng.range(-2, 2) as f64; q.clone() }).collect() }
        1 => { let mut q = Point2D { x: 0., y: 0. }; (0..n).map(|_| { q.x += ctx.rng.f(0.1, 1.0); q.y += ctx.rng.f(-1.0, 1.0); q.clone() }).collect() }
        2 => (0..n).map(|i| { let a = i as f64 * 0.2; Point2D { x: 10. * a.cos(), y: 10. * a.sin() } }).collect(),
        3 => (0..n).map(|i| Point2D { x: 3.0, y: i as f64 }).collect(),
        4 => (0..n).map(|i| Point2D { x: i as f64, y: (i as f64 * 0.35).sin() * 4.0 }).collect(),
        _ => { let d = *ctx.rng.pick(&[Dist::Grid, Dist::Dyadic, Dist::Uniform, Dist::Lattice, Dist::Small, Dist::Large, Dist::Tiny, Dist::Huge]); cloud2(ctx, n, d) }
    };
    if n > 1 && ctx.rng.chance(1, 4) { let f = v[0].clone(); let l = v.len() - 1; v[l] = f; }
    v
}
/// is kept (sorted indices) a possible outcome of the recursion on a..=b?
fn dp_ok(v: &[Point2D], kept: &[usize], a: usize, b: usize, eps: f64, scale: f64) -> std::result::Result<(), String> {
    let inner: Vec<usize> = kept.iter().cloned().filter(|k| *k > a && *k < b).collect();
    let mut dmax = 0.0f64;
    for i in a + 1..b { dmax = dmax.max(line_dist(&v[i], &v[a], &v[b])); }
    let len = d2(&v[a], &v[b]);
    let tol = 1e-11 * scale * (1.0 + if len > 0.0 { scale / len } else { 0.0 });
    if inner.is_empty() {
        if dmax > eps + tol { return Err(format!("a point between index {} {:?} and {} {:?} is {} away from their line although epsilon is {}", a, v[a], b, v[b], dmax, eps)); }
        return Ok(());
    }
    if dmax < eps - tol { return Err(format!("index {:?} are kept although all points between {} and {} are at most {} away from the line, epsilon {}", inner, a, b, dmax, eps)); }
    // one of the kept points is a farthest one
    let mut why = format!("none of the kept points {:?} between {} and {} is a farthest one ({})", inner, a, b, dmax);
    for k in inner {
        if line_dist(&v[k], &v[a], &v[b]) >= dmax - tol {
            match dp_ok(v, kept, a, k, eps, scale).and_then(|_| dp_ok(v, kept, k, b, eps, scale)) { Ok(()) => return Ok(()), Err(e) => why = e }
        }
    }
    Err(why)
}
fn simplify(ctx: &mut Ctx) -> R {
    let v = path(ctx);
    let n = v.len();
    fp2(ctx, &v);
    let eps = match ctx.rng.below(5) { 0 => 0.0, 1 => ctx.rng.range(1, 5) as f64, 2 => 1e9, 3 => ctx.rng.f(0.0, 0.5), _ => ctx.rng.f(0.0, 3.0) };
    // a negative one acts like 0
    let eps = if ctx.rng.chance(1, 12) { ctx.count("negative_epsilon", 1); -eps - ctx.rng.f(0.0, 0.5) } else { eps };
    ctx.fpf(eps);
    if ctx.want_desc { let s = format!("epsilon {} path {}", eps, show2(&v)); ctx.note(s); }
    // third component carries the index; the algorithm clones its points
    let tagged: Vec<Tag> = v.iter().enumerate().map(|(i, q)| Tag { x: q.x, y: q.y, id: i }).collect();
    let out = douglas_peucker_2d(PointCloud2D { data: tagged }, eps);
    let kept: Vec<usize> = out.data.iter().map(|t| t.id).collect();
    ensure!(kept.windows(2).all(|w| w[0] < w[1]), "dp-order", "the result holds the input points {:?}: not a proper subsequence; epsilon {} path {}", kept, eps, show2(&v));
    for t in &out.data { ensure!(t.x.to_bits() == v[t.id].x.to_bits() && t.y.to_bits() == v[t.id].y.to_bits(), "dp-moved", "point {} moved", t.id); }
    if n == 0 { ensure!(kept.is_empty(), "dp-empty", "an empty path became {:?}", kept); return Ok(()); }
    ensure!(kept.first() == Some(&0) && kept.last() == Some(&(n - 1)), "dp-ends", "the ends of the path are not kept: {:?} of {}; epsilon {} path {}", kept, n, eps, show2(&v));
    let scale = v.iter().map(|q| q.x.abs() + q.y.abs()).fold(0.0, f64::max) + 1e-300;
    if let Err(e) = dp_ok(&v, &kept, 0, n - 1, eps.max(0.0), scale) { return fail("dp-distance", format!("{}; kept {:?}, path {}", e, kept, show2(&v))); }
    ctx.count("paths", 1);
    ctx.count("points_dropped", (n - kept.len()) as u64);
    if k2(&v[0]) == k2(&v[n - 1]) && n > 3 { ctx.count("closed_paths", 1); }
    if kept.len() > 2 && kept.len() < n { ctx.nontrivial = true; ctx.count("proper_simplifications", 1); }
    Ok(())
}
#[derive(Clone, Debug)]
struct Tag { x: f64, y: f64, id: usize }
impl IsND for Tag {
    fn n_dimensions() -> usize { 2 }
    fn position_nd(&self, d: usize) -> Option<f64> { match d { 0 => Some(self.x), 1 => Some(self.y), _ => None } }
}
impl Is2D for Tag {
    fn x(&self) -> f64 { self.x }
    fn y(&self) -> f64 { self.y }
}

// ---------------------------------------------------------------- C24
fn casteljau(v: &[Point2D], t: f64) -> (f64, f64) {
    let mut q: Vec<(f64, f64)> = v.iter().map(|p| (p.x, p.y)).collect();
    for n in (1..q.len()).rev() { for i in 0..n { q[i] = ((1.0 - t) * q[i].0 + t * q[i + 1].0, (1.0 - t) * q[i].1 + t * q[i + 1].1); } }
    q[0]
}
fn interpolate(ctx: &mut Ctx) -> R {
    let d = *ctx.rng.pick(&DISTS);
    let nb = match ctx.rng.below(10) { 0 => ctx.rng.below(3), 1 => 15 + ctx.rng.below(40), 2 if ctx.rng.chance(1, 20) => 100 + ctx.rng.below(900), _ => 2 + ctx.rng.below(12) };
    let mut v = cloud2(ctx, nb, d);
    if ctx.rng.chance(1, 5) { for i in 1..v.len() { if ctx.rng.chance(1, 3) { v[i] = v[i - 1].clone(); } } }
    let n = match ctx.rng.below(6) { 0 => ctx.rng.below(3), 1 => ctx.rng.below(200), _ => ctx.rng.below(40) };
    let n = if nb > 60 { n.min(10) } else { n };
    let n = if nb < 30 && !ctx.tiny && ctx.rng.chance(1, 1000) { ctx.count("curves_of_many_points", 1); *ctx.rng.pick(&[255usize, 256, 257, 1000, 4097, 5000, 65537]) } else { n };
    fp2(ctx, &v);
    ctx.fpu(n as u64);
    if ctx.want_desc { let s = format!("{} points from {}", n, show2(&v)); ctx.note(s); }
    let pc = PointCloud2D { data: v.clone() };
    let kind = ctx.rng.below(3);
    ctx.fpu(kind as u64);
    let r = match kind { 0 => interpolate_bezier(&pc, n), 1 => interpolate_cosine(&pc, n), _ => interpolation_linear(&pc, n) };
    let name = ["bezier", "cosine", "linear"][kind];
    if nb < 2 { ensure!(r.is_err(), "interpolate-few", "{} interpolation of {} base points succeeded", name, nb); ctx.count("too_few", 1); return Ok(()); }
    let o = match r { Ok(o) => o, Err(e) => return fail("interpolate-error", format!("{} interpolation failed: {:?}; {}", name, e, show2(&v))) };
    ensure!(o.data.len() == n, "interpolate-count", "{} interpolation gave {} points instead of {}; {}", name, o.data.len(), n, show2(&v));
    let scale = v.iter().map(|q| q.x.abs().max(q.y.abs())).fold(0.0, f64::max);
    let seg: Vec<f64> = v.windows(2).map(|w| d2(&w[0], &w[1])).collect();
    let total: f64 = seg.iter().sum();
    let tol = 1e-9 * (scale + total);
    for i in 0..n {
        let want = if kind == 0 { casteljau(&v, i as f64 / n as f64) } else {
            let target = if n < 2 { 0.0 } else { total * (i as f64) / (n - 1) as f64 };
            let mut before = 0.0;
            let mut j = 0;
            while j + 1 < seg.len() && before + seg[j] < target { before += seg[j]; j += 1; }
            let t = if seg[j] > 0.0 { ((target - before) / seg[j]).max(0.0).min(1.0) } else { 0.0 };
            let ty = if kind == 1 { (1.0 - (t * std::f64::consts::PI).cos()) / 2.0 } else { t };
            (v[j].x + t * (v[j + 1].x - v[j].x), v[j].y + ty * (v[j + 1].y - v[j].y))
        };
        let g = &o.data[i];
        ensure!((g.x - want.0).abs() <= tol && (g.y - want.1).abs() <= tol, "interpolate-position", "{} interpolation point {} of {} is {:?}, expected {:?}; base {}", name, i, n, g, want, show2(&v));
    }
    ctx.count(name, 1);
    if n > 2 { ctx.nontrivial = true; }
    if kind == 0 && nb > 21 { ctx.count("bezier_many_base_points", 1); }
    Ok(())
}
fn factories(ctx: &mut Ctx) -> R {
    let d = *ctx.rng.pick(&[Dist::Dyadic, Dist::Uniform, Dist::Lattice, Dist::Wide, Dist::Small, Dist::Large, Dist::Tiny, Dist::Huge]);
    let c = pt2(&mut ctx.rng, d);
    let (a, b) = (ctx.rng.f(0.01, 100.0), if ctx.rng.bool() { ctx.rng.f(0.01, 100.0) } else { ctx.rng.range(1, 20) as f64 });
    let n = match ctx.rng.below(5) { _ if !ctx.tiny && ctx.rng.chance(1, 1000) => { ctx.count("curves_of_many_points", 1); *ctx.rng.pick(&[255usize, 256, 257, 1000, 4097, 5000, 65537]) } 0 => ctx.rng.below(3), _ => ctx.rng.below(80) };
    let (s, e) = (ctx.rng.f(-12.0, 12.0), match ctx.rng.below(3) { 0 => ctx.rng.range(-7, 7) as f64, _ => ctx.rng.f(-12.0, 12.0) });
    for x in [c.x, c.y, a, b, s, e].iter() { ctx.fpf(*x); }
    ctx.fpu(n as u64);
    let kind = ctx.rng.below(4);
    ctx.fpu(kind as u64);
    if ctx.want_desc { ctx.note(format!("shape {} center {:?} sizes {} {} points {} angles {} {}", kind, c, a, b, n, s, e)); }
    let tol = 1e-9 * (c.x.abs() + c.y.abs() + (a + b) * (1.0 + s.abs() + e.abs()));
    let ang = |i: usize, s: f64, e: f64| if n < 2 { s } else { s + (e - s) * i as f64 / (n - 1) as f64 };
    let two_pi = 2.0 * std::f64::consts::PI;
    let (o, want): (PointCloud2D<Point2D>, Vec<(f64, f64)>) = match kind {
        0 => (rectangle(&c, pos(a), pos(b)), [(-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5)].iter().map(|k| (c.x + k.0 * a, c.y + k.1 * b)).collect()),
        1 => (involut_circle(&c, n, pos(a), Rad(s), Rad(e)), (0..n).map(|i| { let t = ang(i, s, e); (c.x + a / 2.0 * (t.cos() + t * t.sin()), c.y + a / 2.0 * (t.sin() - t * t.cos())) }).collect()),
        2 => (arc(&c, n, pos(a), Rad(s), Rad(e)), (0..n).map(|i| { let t = ang(i, s, e); (c.x + a / 2.0 * t.cos(), c.y + a / 2.0 * t.sin()) }).collect()),
        _ => (ellipse(&c, n, pos(a), pos(b)), (0..n).map(|i| { let t = ang(i, 0.0, two_pi); (c.x + a * t.cos(), c.y + b * t.sin()) }).collect()),
    };
    let name = ["rectangle", "involute", "arc", "ellipse"][kind];
    ensure!(o.data.len() == want.len(), "factory-count", "{} has {} points, expected {}", name, o.data.len(), want.len());
    for i in 0..want.len() {
        let g = &o.data[i];
        ensure!((g.x - want[i].0).abs() <= tol && (g.y - want[i].1).abs() <= tol, "factory-position", "{} point {} of {} is {:?}, expected {:?}; center {:?} sizes {} {} angles {} {}", name, i, want.len(), g, want[i], c, a, b, s, e);
    }
    ctx.count(name, 1);
    ctx.nontrivial = want.len() > 2;
    Ok(())
}
fn shapes(ctx: &mut Ctx) -> R { if ctx.rng.chance(2, 3) { interpolate(ctx) } else { factories(ctx) } }

// ---------------------------------------------------------------- probes
fn q(x: f64, y: f64) -> Point2D { Point2D { x, y } }
fn probe_hull_single() -> R {
    ensure!(convex_hull_2d(&vec![q(1., 2.)]).len() == 1 && convex_hull_2d(&vec![q(1., 2.), q(1., 2.)]).len() == 1, "hull-count", "the hull of one position does not hold it once");
    Ok(())
}
fn probe_hull_ties() -> R {
    let h = convex_hull_2d(&vec![q(0., 1.), q(0., 0.), q(1., 1.), q(1., 0.), q(0., 0.5)]);
    ensure!(h.len() == 4, "hull-count", "the hull of a square has {} vertices: {}", h.len(), show2(&h));
    Ok(())
}
fn probe_sort_ties() -> R {
    let mut v = vec![q(0., 2.), q(0., 1.)];
    sort_vec_2d_x(&mut v);
    ensure!(v[0].y == 1., "sort-ties", "ties are not broken by y");
    let mut v = vec![Point3D { x: 1., y: 5., z: 0. }, Point3D { x: 0., y: 5., z: 0. }];
    sort_vec_3d_z(&mut v);
    ensure!(v[0].x == 0., "sort-ties", "ties are not broken by x");
    Ok(())
}
fn dp(v: &[Point2D], eps: f64) -> Vec<Point2D> { douglas_peucker_2d(PointCloud2D { data: v.to_vec() }, eps).data }
fn probe_dp_vertical() -> R {
    let o = dp(&[q(1., 0.), q(3., 1.), q(1., 2.)], 0.5);
    ensure!(o.len() == 3, "dp-distance", "a peak next to a vertical line was dropped: {}", show2(&o));
    let o = dp(&[q(0., 0.), q(3., 1.), q(3., 4.), q(0., 0.)], 0.5);
    ensure!(o.len() == 4, "dp-distance", "a closed path collapsed: {}", show2(&o));
    Ok(())
}
fn probe_dp_single() -> R {
    ensure!(dp(&[q(1., 1.)], 1.0).len() == 1, "dp-order", "a single point is doubled");
    Ok(())
}
fn probe_dp_split() -> R {
    let o = dp(&[q(0., 0.), q(1., 2.), q(2., 0.), q(3., 2.), q(4., 10.), q(8., 0.)], 0.5);
    ensure!(o.len() == 6, "dp-distance", "points farther than epsilon were dropped: {}", show2(&o));
    Ok(())
}
fn probe_bezier_many() -> R {
    let v: Vec<Point2D> = (0..40).map(|i| q(i as f64, 1.0)).collect();
    match interpolate_bezier(&PointCloud2D { data: v }, 5) {
        Ok(o) => { for p in &o.data { ensure!((p.y - 1.0).abs() < 1e-9 && p.x >= 0.0 && p.x <= 39.0, "interpolate-position", "bezier point {:?} of a straight line y = 1", p); } Ok(()) }
        Err(e) => fail("interpolate-error", format!("{:?}", e)),
    }
}
fn probe_linear_repeat() -> R {
    let pc = PointCloud2D { data: vec![q(0., 0.), q(0., 0.), q(1., 0.)] };
    for o in [interpolation_linear(&pc, 3), interpolate_cosine(&pc, 3)].iter() {
        match o { Ok(o) => ensure!(o.data.len() == 3 && o.data.iter().all(|p| p.x.is_finite() && p.y.is_finite()), "interpolate-position", "repeated base points give {}", show2(&o.data)), Err(e) => return fail("interpolate-error", format!("{:?}", e)) }
    }
    ensure!(interpolation_linear(&pc, 0).map(|o| o.data.len()).unwrap_or(9) == 0 && interpolate_cosine(&pc, 1).map(|o| o.data.len()).unwrap_or(9) == 1, "interpolate-count", "less than two points requested");
    Ok(())
}
fn probe_factories() -> R {
    let o = arc(&q(0., 0.), 2, pos(2.0), Rad(1.0), Rad(0.0));
    ensure!((o.data[1].x - 1.0).abs() < 1e-12, "factory-position", "an arc from 1 to 0 ends at {:?}", o.data[1]);
    let o = involut_circle(&q(0., 0.), 2, pos(2.0), Rad(1.0), Rad(2.0));
    ensure!((o.data[0].x - (1f64.cos() + 1f64.sin())).abs() < 1e-12, "factory-position", "an involute from 1 starts at {:?}", o.data[0]);
    let o = ellipse(&q(0., 0.), 5, pos(2.0), pos(1.0));
    ensure!((o.data[3].y + 1.0).abs() < 1e-12, "factory-position", "the ellipse never reaches its lower half: {}", show2(&o.data));
    ensure!(arc(&q(0., 0.), 0, pos(1.0), Rad(0.), Rad(1.)).data.is_empty() && ellipse(&q(0., 0.), 1, pos(1.0), pos(1.0)).data.iter().all(|p| p.x.is_finite()), "factory-count", "less than two points");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C17", rule: "the hull has exactly the strict extreme points in counter-clockwise order", quick: 5_000_000, thorough: 20_000_000, run: hull,
            probes: &[("single-position", probe_hull_single), ("ties-in-x", probe_hull_ties), ("sort-ties", probe_sort_ties)],
            must_see: &["exact_hulls", "float_hulls", "flat_hulls", "scaled_hulls"], level: "exploration",
            assumptions: &["exact vertex lists are only required where the orientation test is exact; otherwise containment up to rounding"] },
        Prop { id: "C18", rule: "the simplified path keeps the ends and a farthest point of every part that deviates more than epsilon", quick: 2_000_000, thorough: 30_000_000, run: simplify,
            probes: &[("vertical-and-closed", probe_dp_vertical), ("single-point", probe_dp_single), ("first-half", probe_dp_split)],
            must_see: &["paths", "closed_paths", "proper_simplifications"], level: "exploration",
            assumptions: &["distances within rounding of epsilon may be decided either way; of several farthest points any may be kept", "epsilon is not negative"] },
        Prop { id: "C24", rule: "interpolated and generated points lie where the definition puts them", quick: 2_000_000, thorough: 30_000_000, run: shapes,
            probes: &[("bezier-many", probe_bezier_many), ("repeated-base-points", probe_linear_repeat), ("factories", probe_factories)],
            must_see: &["bezier", "cosine", "linear", "bezier_many_base_points", "rectangle", "involute", "arc", "ellipse", "too_few"], level: "exploration",
            assumptions: &["bezier parameters are i/n for n points, as documented by the tests", "up to 1000 bezier base points"] },
    ]
}
