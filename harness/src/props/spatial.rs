//! C08 k-d tree, C09 octree, C10 bounding box trees and cluster: queries against brute force.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use rust_3d::*;
use std::collections::{BTreeMap, BTreeSet};

/// a point with an identity, so that duplicates are told apart
#[derive(Clone, Debug, Default)]
pub struct PId { pub x: f64, pub y: f64, pub z: f64, pub id: usize }
impl IsND for PId {
    fn n_dimensions() -> usize { 3 }
    fn position_nd(&self, d: usize) -> Option<f64> { match d { 0 => Some(self.x), 1 => Some(self.y), 2 => Some(self.z), _ => None } }
}
impl Is3D for PId {
    fn x(&self) -> f64 { self.x }
    fn y(&self) -> f64 { self.y }
    fn z(&self) -> f64 { self.z }
}

fn exact(d: Dist) -> bool { matches!(d, Dist::Grid | Dist::Dyadic | Dist::Lattice | Dist::Small | Dist::Large | Dist::Tiny | Dist::Huge) }

pub fn pos(x: f64) -> Positive { Positive::new(x).expect("HARNESS positive") }

fn query3(ctx: &mut Ctx, pts: &[Point3D], d: Dist) -> Point3D {
    match ctx.rng.below(5) {
        0 if !pts.is_empty() => pts[ctx.rng.below(pts.len())].clone(),
        1 if !pts.is_empty() => {
            // straight above / beside an existing point
            let mut p = pts[ctx.rng.below(pts.len())].clone();
            match ctx.rng.below(3) { 0 => p.x = coord(&mut ctx.rng, d), 1 => p.y = coord(&mut ctx.rng, d), _ => p.z = coord(&mut ctx.rng, d) }
            p
        }
        2 => {
            let s = 3.0;
            let p = pt3(&mut ctx.rng, d);
            Point3D { x: p.x * s, y: p.y * s, z: p.z * s }
        }
        _ => pt3(&mut ctx.rng, d),
    }
}

fn kd(ctx: &mut Ctx) -> R {
    let d = *ctx.rng.pick(&DISTS);
    let max = if ctx.thorough { 3000 } else { 900 };
    // queries for more than a thousand neighbours need a large cloud
    let n = if ctx.rng.chance(1, 3000) { ctx.count("large_trees", 1); 1000 + ctx.rng.below(4000) } else { size(ctx, max) };
    let pts = cloud3(ctx, n, d);
    fp3(ctx, &pts);
    if ctx.want_desc { let s = format!("k-d tree over {:?} {}", d, show3(&pts)); ctx.note(s); }
    let ids: Vec<PId> = pts.iter().enumerate().map(|(id, p)| PId { x: p.x, y: p.y, z: p.z, id }).collect();
    let mut tree: KdTree<PId> = KdTree::default();
    let r = tree.build(PointCloud3D { data: ids.clone() });
    if n == 0 {
        ensure!(r.is_err(), "kd-empty-build", "building from an empty cloud succeeded");
        ensure!(tree.size() == 0, "kd-empty-size", "size {} after failed build of nothing", tree.size());
        let mut out = vec![];
        tree.knearest(&pt3(&mut ctx.rng, d), 3, &mut out);
        ensure!(out.is_empty() && tree.nearest(&pt3(&mut ctx.rng, d)).is_none(), "kd-empty-query", "the empty tree found something");
        return Ok(());
    }
    ensure!(r.is_ok(), "kd-build", "build of {} points failed: {:?}", n, r);
    ensure!(tree.size() == n, "kd-size", "size() = {} for {} points", tree.size(), n);
    let back = tree.to_pointcloud();
    let mut seen: Vec<usize> = back.data.iter().map(|p| p.id).collect();
    seen.sort();
    ensure!(seen == (0..n).collect::<Vec<_>>(), "kd-content", "to_pointcloud() does not hold each input exactly once: {} of {}", seen.len(), n);
    for p in &back.data {
        let q = &ids[p.id];
        ensure!(p.x.to_bits() == q.x.to_bits() && p.y.to_bits() == q.y.to_bits() && p.z.to_bits() == q.z.to_bits(), "kd-content-pos", "point {} moved", p.id);
    }
    ctx.count("trees", 1);
    let nq = 4 + ctx.rng.below(6);
    for _ in 0..nq {
        let q = query3(ctx, &pts, d);
        let dist: Vec<f64> = pts.iter().map(|p| d3(p, &q)).collect();
        let scale = dist.iter().cloned().fold(0.0, f64::max) + q.x.abs() + q.y.abs() + q.z.abs() + pts.iter().map(|p| p.x.abs() + p.y.abs() + p.z.abs()).fold(0.0, f64::max);
        let tol = if exact(d) { 0.0 } else { 1e-9 * scale };
        // nearest
        let best = dist.iter().cloned().fold(f64::INFINITY, f64::min);
        match tree.nearest(&q) {
            None => return fail("kd-nearest-none", format!("nearest({:?}) found nothing in {} points", q, n)),
            Some(p) => {
                ensure!(p.id < n, "kd-id", "unknown element");
                ensure!((dist[p.id] - best).abs() <= tol, "kd-nearest", "nearest({:?}) returned distance {} while {} is there", q, dist[p.id], best);
            }
        }
        ctx.count("nearest", 1);
        // k nearest
        let k = match ctx.rng.below(6) { 0 => 1, 1 => 2, 2 => n, 3 => n + ctx.rng.below(4), 4 => 0, _ => 1 + ctx.rng.below(n.min(40)) };
        let mut out: Vec<PId> = vec![];
        tree.knearest(&q, k, &mut out);
        let want = k.min(n);
        ensure!(out.len() == want, "kd-knearest-count", "knearest(k={}) over {} points returned {}", k, n, out.len());
        let ids_out: BTreeSet<usize> = out.iter().map(|p| p.id).collect();
        ensure!(ids_out.len() == out.len(), "kd-knearest-dup", "knearest returned an element twice");
        let mut sorted = dist.clone();
        sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut got: Vec<f64> = out.iter().map(|p| dist[p.id]).collect();
        got.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for i in 0..want {
            ensure!((got[i] - sorted[i]).abs() <= tol, "kd-knearest", "knearest({:?}, k={}) over {} points: {}-th distance {} but brute force {}", q, k, n, i, got[i], sorted[i]);
        }
        ctx.count("knearest", 1);
        if k >= 2 && k < n { ctx.count("knearest_proper", 1); ctx.nontrivial = true; }
        // sphere
        let radius = match ctx.rng.below(4) {
            0 => { let x = dist[ctx.rng.below(n)]; if exact(d) { (x / unit(d)).ceil() * unit(d) } else { x * 1.01 } }
            1 => ctx.rng.range(1, 12) as f64 * unit(d),
            2 => if exact(d) { (scale * 0.2 / unit(d)).ceil() * unit(d) } else { scale * ctx.rng.unit() },
            _ => if exact(d) { ctx.rng.range(1, 64) as f64 / 8.0 * unit(d) } else { scale * ctx.rng.unit() * 0.1 },
        };
        if radius > 0.0 {
            let keep = ctx.rng.bool();
            let marker = PId { x: 0.0, y: 0.0, z: 0.0, id: usize::MAX };
            let mut out: Vec<PId> = if keep { vec![marker.clone()] } else { vec![] };
            tree.in_sphere(&Sphere { center: q.clone(), radius: pos(radius) }, &mut out);
            if keep { ensure!(!out.is_empty() && out[0].id == usize::MAX, "kd-sphere-prefix", "in_sphere dropped the existing content of the result"); out.remove(0); }
            let s: BTreeSet<usize> = out.iter().map(|p| p.id).collect();
            ensure!(s.len() == out.len(), "kd-sphere-dup", "in_sphere returned an element twice");
            let mut inside = 0;
            for i in 0..n {
                if dist[i] <= radius - tol { inside += 1; ensure!(s.contains(&i), "kd-sphere-missing", "in_sphere(center {:?}, r {}) misses {:?} at distance {} ({} points)", q, radius, pts[i], dist[i], n); }
                else if dist[i] > radius + tol { ensure!(!s.contains(&i), "kd-sphere-extra", "in_sphere(center {:?}, r {}) contains {:?} at distance {}", q, radius, pts[i], dist[i]); }
            }
            ctx.count("in_sphere", 1);
            ctx.count("in_sphere_hits", inside);
        }
        // box
        let (sx, sy, sz) = if exact(d) { (ctx.rng.range(1, 40) as f64 * unit(d), ctx.rng.range(1, 40) as f64 * unit(d), ctx.rng.range(1, 2000) as f64 / 4.0 * unit(d)) } else { (scale * ctx.rng.unit(), scale * ctx.rng.unit(), scale * ctx.rng.unit()) };
        if sx > 0.0 && sy > 0.0 && sz > 0.0 {
            let keep = ctx.rng.bool();
            let mut out: Vec<PId> = if keep { vec![PId { x: 0.0, y: 0.0, z: 0.0, id: usize::MAX }] } else { vec![] };
            tree.in_box(&Box3D { center: q.clone(), size_x: pos(sx), size_y: pos(sy), size_z: pos(sz) }, &mut out);
            if keep { ensure!(!out.is_empty() && out[0].id == usize::MAX, "kd-box-prefix", "in_box dropped the existing content of the result"); out.remove(0); }
            let s: BTreeSet<usize> = out.iter().map(|p| p.id).collect();
            ensure!(s.len() == out.len(), "kd-box-dup", "in_box returned an element twice");
            let mut inside = 0;
            for i in 0..n {
                let m = ((pts[i].x - q.x).abs() - sx / 2.0).max((pts[i].y - q.y).abs() - sy / 2.0).max((pts[i].z - q.z).abs() - sz / 2.0);
                if m <= -tol { inside += 1; ensure!(s.contains(&i), "kd-box-missing", "in_box(center {:?}, size {} {} {}) misses {:?} ({} points)", q, sx, sy, sz, pts[i], n); }
                else if m > tol { ensure!(!s.contains(&i), "kd-box-extra", "in_box(center {:?}, size {} {} {}) contains {:?}", q, sx, sy, sz, pts[i]); }
            }
            ctx.count("in_box", 1);
            ctx.count("in_box_hits", inside);
        }
    }
    // rebuilding replaces the content
    if ctx.rng.chance(1, 4) {
        let m = 1 + ctx.rng.below(5);
        let other: Vec<PId> = (0..m).map(|id| { let p = pt3(&mut ctx.rng, d); PId { x: p.x, y: p.y, z: p.z, id: 1_000_000 + id } }).collect();
        ensure!(tree.build(PointCloud3D { data: other }).is_ok(), "kd-rebuild", "second build failed");
        ensure!(tree.size() == m && tree.to_pointcloud().data.iter().all(|p| p.id >= 1_000_000), "kd-rebuild-content", "after a second build the tree still holds old points");
        ctx.count("rebuilds", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------ octree
fn norm_key(p: &Point3D) -> [u64; 3] { [(p.x + 0.0).to_bits(), (p.y + 0.0).to_bits(), (p.z + 0.0).to_bits()] }

/// partition of the points into the cells of a level (single points are not split further);
/// false if a point lies so close to a dividing plane that its cell is a matter of rounding
fn oct_cells(pts: Vec<Point3D>, l: [f64; 3], h: [f64; 3], level: usize, tol: f64, out: &mut Vec<Vec<Point3D>>) -> bool {
    if pts.is_empty() { return true; }
    if level == 0 || pts.len() == 1 { out.push(pts); return true; }
    let c = [l[0] + (h[0] - l[0]) / 2.0, l[1] + (h[1] - l[1]) / 2.0, l[2] + (h[2] - l[2]) / 2.0];
    let mut sub: Vec<Vec<Point3D>> = vec![vec![]; 8];
    for p in pts {
        let x = [p.x, p.y, p.z];
        let mut k = 0;
        for i in 0..3 {
            if (x[i] - c[i]).abs() <= tol { return false; }
            if x[i] > c[i] { k |= 1 << i }
        }
        sub[k].push(p);
    }
    for (k, s) in sub.into_iter().enumerate() {
        let (mut nl, mut nh) = (l, h);
        for i in 0..3 { if k >> i & 1 == 1 { nl[i] = c[i] } else { nh[i] = c[i] } }
        if !oct_cells(s, nl, nh, level - 1, tol, out) { return false; }
    }
    true
}

fn oct(ctx: &mut Ctx) -> R {
    let d = *ctx.rng.pick(&DISTS);
    let max = if ctx.thorough { 3000 } else { 800 };
    let n = size(ctx, max);
    let mut pts = cloud3(ctx, n, d);
    if ctx.rng.chance(1, 12) && n > 2 {
        // strongly different scales: deep trees
        let e = ctx.rng.range(1, 30) as i32;
        let f = 2f64.powi(-e);
        let k = ctx.rng.below(n);
        for p in pts.iter_mut().take(k) { p.x *= f; p.y *= f; p.z *= f; }
    }
    // halves of a unit box are exact: every level can be told
    let deep = ctx.rng.chance(1, 12);
    if deep {
        let k = 2 + ctx.rng.below(14);
        let f = ctx.rng.pick(&[1.0, 1024.0, 1.0 / 64.0]).clone();
        pts = vec![Point3D { x: 0., y: 0., z: 0. }, Point3D { x: f, y: f, z: f }];
        let top = ctx.rng.range(4, 60);
        for _ in 0..k {
            let s = f * 2f64.powi(-(ctx.rng.range(4, top + 1) as i32));
            let mut c = || (ctx.rng.range(0, 7) as f64 + 1.0 / 1024.0) * s;
            pts.push(Point3D { x: c(), y: c(), z: c() });
        }
        ctx.count("deep_trees", 1);
    }
    let n = pts.len();
    fp3(ctx, &pts);
    if ctx.want_desc { let s = format!("octree over {:?} {}", d, show3(&pts)); ctx.note(s); }
    let mut mn = [f64::INFINITY; 3];
    let mut mx = [f64::NEG_INFINITY; 3];
    for p in &pts { for (i, c) in [p.x, p.y, p.z].iter().enumerate() { mn[i] = mn[i].min(*c); mx[i] = mx[i].max(*c); } }
    let flat = n < 2 || (0..3).any(|i| mn[i] == mx[i]);
    let mut tree: OcTree<Point3D> = OcTree::default();
    let r = tree.build(PointCloud3D { data: pts.clone() });
    if flat {
        ensure!(r.is_err(), "oct-flat", "build succeeded although the points span no box");
        ctx.count("flat_rejected", 1);
        return Ok(());
    }
    match r {
        Err(e) => {
            // only a cloud whose separation is out of the resolution of f64 may be refused
            let span = (0..3).map(|i| mx[i] - mn[i]).fold(f64::INFINITY, f64::min);
            let mag = (0..3).map(|i| mx[i].abs().max(mn[i].abs())).fold(0.0, f64::max);
            ensure!(!(exact(d) && span > mag * 1e-3 && pts.iter().all(|p| [p.x, p.y, p.z].iter().all(|c| *c * 8.0 == (*c * 8.0).trunc()))), "oct-refused", "build of ordinary points failed with {:?}: {}", e, show3(&pts));
            ctx.count("refused", 1);
            return Ok(());
        }
        Ok(()) => {}
    }
    let mut want: Vec<[u64; 3]> = pts.iter().map(norm_key).collect();
    want.sort();
    want.dedup();
    ensure!(tree.size() == want.len(), "oct-size", "size() = {} but {} distinct points were given: {}", tree.size(), want.len(), show3(&pts));
    let mut got: Vec<[u64; 3]> = tree.to_pointcloud().data.iter().map(norm_key).collect();
    got.sort();
    ensure!(got == want, "oct-content", "to_pointcloud() differs from the distinct input points: {} against {} ({})", got.len(), want.len(), show3(&pts));
    ctx.count("trees", 1);
    if want.len() > 2 { ctx.nontrivial = true; }
    if want.len() < n { ctx.count("with_duplicates", 1); }
    let mut last = 0usize;
    let tolx = if deep { 0.0 } else { 1e-9 } * (0..3).map(|i| mx[i].abs() + mn[i].abs()).fold(0.0, f64::max);
    let mut depth = 0i8;
    loop {
        let c = tree.collect(depth);
        let l = c.data.len();
        ensure!(l >= last && l <= want.len() && l >= 1, "oct-collect-count", "collect({}) returned {} positions, collect of the level above {}, points {}", depth, l, last, want.len());
        for p in &c.data {
            let ok = [p.x, p.y, p.z].iter().enumerate().all(|(i, v)| *v >= mn[i] - tolx && *v <= mx[i] + tolx);
            ensure!(ok, "oct-collect-outside", "collect({}) returned {:?} outside of the box of the points", depth, p);
        }
        ctx.count("collects", 1);
        if depth < if deep { 60 } else { 12 } && want.len() > 1 && want.len() <= 150 {
            // one position per occupied cell of the level, within the points of that cell
            let distinct: Vec<Point3D> = want.iter().map(|k| Point3D { x: f64::from_bits(k[0]), y: f64::from_bits(k[1]), z: f64::from_bits(k[2]) }).collect();
            let mut cells = vec![];
            if oct_cells(distinct, mn, mx, depth as usize + 2, tolx, &mut cells) {
                ensure!(cells.len() == l, "oct-collect-cells", "collect({}) returned {} positions, {} cells of that level are occupied: {}", depth, l, cells.len(), show3(&pts));
                let mut free = c.data.clone();
                for cell in &cells {
                    let f = |g: &dyn Fn(&Point3D) -> f64, t: f64, m: &dyn Fn(f64, f64) -> f64| cell.iter().map(|p| g(p)).fold(t, |a, b| m(a, b));
                    let inf = f64::INFINITY;
                    let (lx, ly, lz) = (f(&|p| p.x, inf, &f64::min), f(&|p| p.y, inf, &f64::min), f(&|p| p.z, inf, &f64::min));
                    let (hx, hy, hz) = (f(&|p| p.x, -inf, &f64::max), f(&|p| p.y, -inf, &f64::max), f(&|p| p.z, -inf, &f64::max));
                    let w = |v: f64, a: f64, b: f64| v >= a * (1.0 - 1e-14 * deep as u8 as f64) - tolx && v <= b * (1.0 + 1e-14 * deep as u8 as f64) + tolx;
                    let k = free.iter().position(|p| w(p.x, lx, hx) && w(p.y, ly, hy) && w(p.z, lz, hz));
                    ensure!(k.is_some(), "oct-collect-cell-missing", "collect({}) returned no position for the cell with {}", depth, show3(cell));
                    let p = free.swap_remove(k.unwrap());
                    ensure!(cell.len() > 1 || norm_key(&p) == norm_key(&cell[0]), "oct-collect-single", "collect({}) returned {:?} for the single point {:?}", depth, p, cell[0]);
                }
                ctx.count("collect_levels_matched", 1);
                if depth > 20 { ctx.count("deep_levels_matched", 1); }
            }
        }
        last = l;
        if depth == 127 { break; }
        depth = if depth < 4 || deep && depth < 64 { depth + 1 } else { (depth as i32 * 2).min(127) as i8 };
    }
    let all = tree.collect(-1 - ctx.rng.below(100) as i8);
    ensure!(all.data.len() == want.len(), "oct-collect-all", "collect without limit returned {} of {}", all.data.len(), want.len());
    Ok(())
}
fn oct_probe_boundary() -> R {
    let mut t: OcTree<Point3D> = OcTree::default();
    let mut pts = vec![];
    for x in 0..3 { for y in 0..3 { for z in 0..3 { pts.push(Point3D::new(x as f64, y as f64, z as f64)); } } }
    let r = t.build(PointCloud3D { data: pts });
    ensure!(r.is_ok() && t.size() == 27, "oct-size", "27 grid points: build {:?}, size {}", r, t.size());
    Ok(())
}
fn oct_probe_deep() -> R {
    let mut t: OcTree<Point3D> = OcTree::default();
    let pts = vec![Point3D::new(0.0, 0.0, 0.0), Point3D::new(1e-50, 1e-50, 1e-50), Point3D::new(1.0, 1.0, 1.0)];
    let r = t.build(PointCloud3D { data: pts });
    if r.is_ok() {
        ensure!(t.size() == 3, "oct-size", "size {}", t.size());
        let l = t.to_pointcloud().data.len();
        ensure!(l == 3, "oct-content", "to_pointcloud() has {}", l);
    }
    Ok(())
}
fn oct_probe_close() -> R {
    // two neighbouring doubles: either refused or kept
    let mut t: OcTree<Point3D> = OcTree::default();
    let b = f64::from_bits(1.0f64.to_bits() + 1);
    let pts = vec![Point3D::new(1.0, 1.0, 1.0), Point3D::new(b, b, b), Point3D::new(2.0, 2.0, 2.0)];
    if t.build(PointCloud3D { data: pts }).is_ok() {
        ensure!(t.size() == 3, "oct-size", "build succeeded but size is {}", t.size());
    }
    Ok(())
}
fn oct_probe_negzero() -> R {
    let mut t: OcTree<Point3D> = OcTree::default();
    let pts = vec![Point3D::new(0.0, 1.0, 1.0), Point3D::new(-0.0, 1.0, 1.0), Point3D::new(2.0, 2.0, 2.0), Point3D::new(0.0, 0.0, 0.0)];
    let r = t.build(PointCloud3D { data: pts });
    ensure!(r.is_ok() && t.size() == 3, "oct-size", "three distinct points (0 and -0 compare equal): build {:?} size {}", r, t.size());
    Ok(())
}

// ------------------------------------------------------------------ bounding box trees
#[derive(Clone, Debug)]
pub struct It3 { pub id: usize, pub bb: BoundingBox3D }
impl HasBoundingBox3D for It3 { fn bounding_box(&self) -> BoundingBox3D { self.bb.clone() } }
impl HasBoundingBox3DMaybe for It3 { fn bounding_box_maybe(&self) -> Option<BoundingBox3D> { Some(self.bb.clone()) } }
#[derive(Clone, Debug)]
pub struct It2 { pub id: usize, pub bb: BoundingBox2D }
impl HasBoundingBox2D for It2 { fn bounding_box(&self) -> BoundingBox2D { self.bb.clone() } }
impl HasBoundingBox2DMaybe for It2 { fn bounding_box_maybe(&self) -> Option<BoundingBox2D> { Some(self.bb.clone()) } }

pub fn extent(r: &mut Rng, d: Dist) -> f64 {
    match d {
        Dist::Grid => r.range(1, 3) as f64,
        Dist::Small => r.range(1, 6) as f64 * unit(d),
        Dist::Large => if r.chance(1, 6) { r.range(1, 1500) as f64 * 4096.0 } else { r.range(1, 60) as f64 * 4096.0 },
        Dist::Tiny | Dist::Huge => r.range(1, 60) as f64 * unit(d),
        Dist::Dyadic => if r.chance(1, 6) { r.range(1, 400) as f64 / 4.0 } else { r.range(1, 40) as f64 / 8.0 },
        Dist::Lattice => if r.chance(1, 6) { r.range(1, 1500) as f64 } else { r.range(1, 60) as f64 },
        Dist::Wide => 10f64.powi(r.range(-3, 5) as i32) * (0.1 + r.unit()),
        _ => if r.chance(1, 6) { 0.5 + r.unit() * 100.0 } else { 0.01 + r.unit() * 5.0 },
    }
}
pub fn bb3(r: &mut Rng, d: Dist) -> BoundingBox3D {
    loop {
        let a = pt3(r, d);
        let b = Point3D { x: a.x + extent(r, d), y: a.y + extent(r, d), z: a.z + extent(r, d) };
        if let Ok(x) = BoundingBox3D::new(&a, &b) { return x; }
    }
}
pub fn bb2(r: &mut Rng, d: Dist) -> BoundingBox2D {
    loop {
        let a = pt2(r, d);
        let b = Point2D { x: a.x + extent(r, d), y: a.y + extent(r, d) };
        if let Ok(x) = BoundingBox2D::new(&a, &b) { return x; }
    }
}
fn a3(b: &BoundingBox3D) -> ([f64; 3], [f64; 3]) { let (l, h) = (b.min_p(), b.max_p()); ([l.x, l.y, l.z], [h.x, h.y, h.z]) }
fn a2(b: &BoundingBox2D) -> ([f64; 2], [f64; 2]) { let (l, h) = (b.min_p(), b.max_p()); ([l.x, l.y], [h.x, h.y]) }
/// smallest overlap of two intervals over all axes (negative: gap)
pub fn overlap(al: &[f64], ah: &[f64], bl: &[f64], bh: &[f64]) -> f64 {
    (0..al.len()).map(|i| ah[i].min(bh[i]) - al[i].max(bl[i])).fold(f64::INFINITY, f64::min)
}
fn judge(ctx: &mut Ctx, what: &str, n: usize, ids: &BTreeSet<usize>, margin: &dyn Fn(usize) -> f64, tol: f64, info: &dyn Fn(usize) -> String) -> R {
    let mut hit = 0;
    for i in 0..n {
        let m = margin(i);
        // strictly positive margin: has to be reported, negative: must not
        if m > tol { hit += 1; ensure!(ids.contains(&i), &format!("{}-missing", what), "{} misses element {} of {}: {}", what, i, n, info(i)); }
        else if m < -tol || (m <= 0.0 && tol == 0.0) { ensure!(!ids.contains(&i), &format!("{}-extra", what), "{} reports element {} of {}: {}", what, i, n, info(i)); }
    }
    ctx.count(&format!("{}_queries", what), 1);
    ctx.count(&format!("{}_hits", what), hit);
    Ok(())
}
/// clearance of a forward ray towards a box: > 0 length of the chord inside the open box
fn ray_box(o: &[f64; 3], d: &[f64; 3], l: &[f64; 3], h: &[f64; 3]) -> f64 {
    let mut t0 = 0.0f64;
    let mut t1 = f64::INFINITY;
    for i in 0..3 {
        if d[i] == 0.0 {
            if o[i] <= l[i] || o[i] >= h[i] { return f64::NEG_INFINITY; }
        } else {
            let (a, b) = ((l[i] - o[i]) / d[i], (h[i] - o[i]) / d[i]);
            t0 = t0.max(a.min(b));
            t1 = t1.min(a.max(b));
        }
    }
    t1 - t0
}

fn aabb(ctx: &mut Ctx) -> R {
    let d = *ctx.rng.pick(&DISTS);
    let max = if ctx.thorough { 600 } else { 250 };
    let n = size(ctx, max);
    // a limit need not limit anything
    let unlimited = ctx.rng.chance(1, 8);
    let depth = if unlimited { *ctx.rng.pick(&[40usize, 1000, 1_000_000, usize::MAX]) } else { *ctx.rng.pick(&[0usize, 1, 2, 3, 5, 8, 12, 20]) };
    let n = if unlimited { n.min(60) } else { n };
    if unlimited { ctx.count("trees without a real depth limit", 1); }
    let bucket = *ctx.rng.pick(&[0usize, 1, 2, 3, 8, 30, 1000]);
    ctx.fpu(n as u64);
    ctx.fpu(depth as u64);
    match ctx.rng.below(5) {
        0 | 1 => aabb3(ctx, d, n, depth, bucket),
        2 | 3 => aabb2(ctx, d, n, depth, bucket),
        _ => cluster(ctx, d, n),
    }
}
fn aabb3(ctx: &mut Ctx, d: Dist, n: usize, depth: usize, bucket: usize) -> R {
    let mut its: Vec<It3> = vec![];
    for id in 0..n {
        let bb = if id > 0 && ctx.rng.chance(1, 8) { its[ctx.rng.below(id)].bb.clone() } else { bb3(&mut ctx.rng, d) };
        ctx.fpf(bb.min_p().x);
        its.push(It3 { id, bb });
    }
    if ctx.want_desc { let s = format!("AABBTree3D n={} maxdepth={} bucket={} {:?} {:?}", n, depth, bucket, d, its.iter().take(5).map(|i| a3(&i.bb)).collect::<Vec<_>>()); ctx.note(s); }
    let tree = AABBTree3D::new(its.clone(), depth, bucket);
    ctx.count("trees_3d", 1);
    if n > 3 && depth > 0 && bucket < n { ctx.nontrivial = true; ctx.count("branching_trees", 1); }
    let bounds: Vec<([f64; 3], [f64; 3])> = its.iter().map(|i| a3(&i.bb)).collect();
    let mag = bounds.iter().map(|(l, h)| l.iter().chain(h.iter()).map(|x| x.abs()).fold(0.0, f64::max)).fold(0.0, f64::max);
    let tol = if exact(d) { 0.0 } else { 1e-9 * mag };
    for t in [0usize, n / 2, n.saturating_sub(1), n] {
        let f = |x: &It3| x.id == t;
        ensure!(tree.any(&f) == (t < n), "aabb3-any", "any() for element {} of {}", t, n);
    }
    for _ in 0..6 {
        let q = if n > 0 && ctx.rng.chance(1, 3) { its[ctx.rng.below(n)].bb.clone() } else { bb3(&mut ctx.rng, d) };
        let (ql, qh) = a3(&q);
        let info = |i: usize| format!("query {:?}, box {:?}, maxdepth {}, bucket {}", (ql, qh), bounds[i], depth, bucket);
        let m = |i: usize| overlap(&bounds[i].0, &bounds[i].1, &ql, &qh);
        let mut res = vec![];
        tree.bb_colliding(&q, &mut res);
        let ids: BTreeSet<usize> = res.iter().map(|x| x.id).collect();
        judge(ctx, "bb_colliding_3d", n, &ids, &m, tol, &info)?;
        let mut ids2 = BTreeSet::new();
        tree.for_each_collision_candidate(&q, &mut |x| { ids2.insert(x.id); });
        judge(ctx, "collision_candidate_3d", n, &ids2, &m, tol, &info)?;
        // planes
        for axis in 0..3 {
            let v = if n > 0 && ctx.rng.bool() { let b = &bounds[ctx.rng.below(n)]; if ctx.rng.bool() { b.0[axis] } else { b.0[axis] + (b.1[axis] - b.0[axis]) / 2.0 } } else { coord(&mut ctx.rng, d) };
            let mut res = vec![];
            match axis { 0 => tree.bb_crossing_x_value(v, &mut res), 1 => tree.bb_crossing_y_value(v, &mut res), _ => tree.bb_crossing_z_value(v, &mut res) }
            let ids: BTreeSet<usize> = res.iter().map(|x| x.id).collect();
            let m = |i: usize| (v - bounds[i].0[axis]).min(bounds[i].1[axis] - v);
            judge(ctx, ["crossing_x_3d", "crossing_y_3d", "crossing_z_3d"][axis], n, &ids, &m, 0.0, &|i| format!("value {} box {:?} maxdepth {}", v, bounds[i], depth))?;
        }
        // ray
        let anchor = pt3(&mut ctx.rng, d);
        let target = if n > 0 && ctx.rng.chance(3, 4) { its[ctx.rng.below(n)].bb.center_bb() } else { pt3(&mut ctx.rng, d) };
        let mut dir = &target - &anchor;
        match ctx.rng.below(8) { 0 => { dir.x = 0.0 } 1 => { dir.y = 0.0 } 2 => { dir.z = 0.0; dir.x = 0.0 } 3 => { dir.y = 0.0; dir.z = 0.0 } _ => {} }
        if let Ok(nd) = Norm3D::new(dir) {
            let line = Line3D::new(anchor.clone(), nd.clone());
            let (o, dd) = ([anchor.x, anchor.y, anchor.z], [nd.x(), nd.y(), nd.z()]);
            if dd.iter().all(|c| *c == 0.0 || c.abs() > 1e-6) {
                let mut ids = BTreeSet::new();
                tree.for_each_intersection_candidate(&line, &mut |x| { ids.insert(x.id); });
                let mm = mag.max(o.iter().map(|c| c.abs()).fold(0.0, f64::max));
                let m = |i: usize| {
                    let c = ray_box(&o, &dd, &bounds[i].0, &bounds[i].1);
                    // a box missed by the ray itself, but touched when slightly grown, is undecided
                    if c > 0.0 { c } else {
                        let g = 1e-5 * mm;
                        let l = [bounds[i].0[0] - g, bounds[i].0[1] - g, bounds[i].0[2] - g];
                        let h = [bounds[i].1[0] + g, bounds[i].1[1] + g, bounds[i].1[2] + g];
                        if ray_box(&o, &dd, &l, &h) > 0.0 { 0.0 } else { -1.0 }
                    }
                };
                judge(ctx, "intersection_candidate_3d", n, &ids, &m, 1e-8 * mm, &|i| format!("ray {:?} {:?} box {:?} maxdepth {}", o, dd, bounds[i], depth))?;
            }
        }
    }
    Ok(())
}
fn aabb2(ctx: &mut Ctx, d: Dist, n: usize, depth: usize, bucket: usize) -> R {
    let mut its: Vec<It2> = vec![];
    for id in 0..n {
        let bb = if id > 0 && ctx.rng.chance(1, 8) { its[ctx.rng.below(id)].bb.clone() } else { bb2(&mut ctx.rng, d) };
        ctx.fpf(bb.min_p().x);
        its.push(It2 { id, bb });
    }
    if ctx.want_desc { let s = format!("AABBTree2D n={} maxdepth={} bucket={} {:?} {:?}", n, depth, bucket, d, its.iter().take(5).map(|i| a2(&i.bb)).collect::<Vec<_>>()); ctx.note(s); }
    let tree = AABBTree2D::new(its.clone(), depth, bucket);
    ctx.count("trees_2d", 1);
    if n > 3 && depth > 0 && bucket < n { ctx.nontrivial = true; ctx.count("branching_trees", 1); }
    let bounds: Vec<([f64; 2], [f64; 2])> = its.iter().map(|i| a2(&i.bb)).collect();
    let mag = bounds.iter().map(|(l, h)| l.iter().chain(h.iter()).map(|x| x.abs()).fold(0.0, f64::max)).fold(0.0, f64::max);
    let tol = if exact(d) { 0.0 } else { 1e-9 * mag };
    for t in [0usize, n / 2, n.saturating_sub(1), n] {
        let f = |x: &It2| x.id == t;
        ensure!(tree.any(&f) == (t < n), "aabb2-any", "any() for element {} of {}", t, n);
    }
    for _ in 0..8 {
        let q = if n > 0 && ctx.rng.chance(1, 3) { its[ctx.rng.below(n)].bb.clone() } else { bb2(&mut ctx.rng, d) };
        let (ql, qh) = a2(&q);
        let info = |i: usize| format!("query {:?}, box {:?}, maxdepth {}, bucket {}", (ql, qh), bounds[i], depth, bucket);
        let m = |i: usize| overlap(&bounds[i].0, &bounds[i].1, &ql, &qh);
        let mut res = vec![];
        tree.bb_colliding(&q, &mut res);
        let ids: BTreeSet<usize> = res.iter().map(|x| x.id).collect();
        judge(ctx, "bb_colliding_2d", n, &ids, &m, tol, &info)?;
        let mut ids2 = BTreeSet::new();
        tree.for_each_collision_candidate(&q, &mut |x| { ids2.insert(x.id); });
        judge(ctx, "collision_candidate_2d", n, &ids2, &m, tol, &info)?;
        for axis in 0..2 {
            let v = if n > 0 && ctx.rng.bool() { let b = &bounds[ctx.rng.below(n)]; if ctx.rng.bool() { b.0[axis] } else { b.0[axis] + (b.1[axis] - b.0[axis]) / 2.0 } } else { coord(&mut ctx.rng, d) };
            let mut res = vec![];
            if axis == 0 { tree.bb_crossing_x_value(v, &mut res) } else { tree.bb_crossing_y_value(v, &mut res) }
            let ids: BTreeSet<usize> = res.iter().map(|x| x.id).collect();
            let m = |i: usize| (v - bounds[i].0[axis]).min(bounds[i].1[axis] - v);
            judge(ctx, ["crossing_x_2d", "crossing_y_2d"][axis], n, &ids, &m, 0.0, &|i| format!("value {} box {:?} maxdepth {}", v, bounds[i], depth))?;
        }
    }
    Ok(())
}
fn cluster(ctx: &mut Ctx, d: Dist, n: usize) -> R {
    let n = n.min(120);
    let mut its: Vec<It3> = vec![];
    for id in 0..n { let bb = bb3(&mut ctx.rng, d); ctx.fpf(bb.min_p().x); its.push(It3 { id, bb }); }
    // more boxes than a 16 bit index can tell apart
    if n > 0 && !ctx.tiny && ctx.rng.chance(1, 12_000) {
        let m = 65_530 + ctx.rng.below(20_000);
        let (w, h) = (ctx.rng.range(1, 2000) as f64, ctx.rng.range(1, 2000) as f64);
        let o = pt3(&mut ctx.rng, Dist::Grid);
        for id in n..m {
            let a = Point3D::new(o.x + ctx.rng.unit() * w, o.y + ctx.rng.unit() * h, o.z);
            let b = Point3D::new(a.x + 0.5 + ctx.rng.unit(), a.y + 0.5 + ctx.rng.unit(), a.z + 1.0);
            its.push(It3 { id, bb: BoundingBox3D::new(&a, &b).unwrap() });
        }
        ctx.count("huge_clusters", 1);
    }
    let n = its.len();
    let bounds: Vec<([f64; 3], [f64; 3])> = its.iter().map(|i| a3(&i.bb)).collect();
    let (mut cx, mut cy) = (*ctx.rng.pick(&[1u16, 2, 3, 7, 16, 40]), *ctx.rng.pick(&[1u16, 2, 3, 7, 16, 40]));
    let fine = ctx.rng.chance(1, 12);
    if fine {
        let c = *ctx.rng.pick(&[255u16, 256, 257, 300, 512, 1000]);
        let o = 1 + ctx.rng.below(3) as u16;
        if ctx.rng.bool() { cx = c; cy = o; } else { cx = o; cy = c; }
        if ctx.rng.chance(1, 40) { let big = *ctx.rng.pick(&[32767u16, 32768, 40000, 65535]); if cx > cy { cx = big; cy = 1 } else { cy = big; cx = 1 } }
        ctx.count("clusters_beyond_u8_cells", 1);
    }
    let n = if fine { n.min(12) } else { n };
    its.truncate(n);
    let bounds = bounds[..n].to_vec();
    if ctx.want_desc { let s = format!("Cluster n={} {}x{} {:?}", n, cx, cy, d); ctx.note(s); }
    let c = match Cluster::new(its.clone(), cx, cy) {
        Err(e) => { ensure!(n == 0, "cluster-new", "Cluster::new failed with {:?} on {} boxes", e, n); return Ok(()); }
        Ok(c) => c,
    };
    ensure!(n > 0, "cluster-empty", "Cluster::new of nothing succeeded");
    ctx.count("clusters", 1);
    if n > 2 && cx > 1 { ctx.nontrivial = true; }
    let lo = [bounds.iter().map(|b| b.0[0]).fold(f64::INFINITY, f64::min), bounds.iter().map(|b| b.0[1]).fold(f64::INFINITY, f64::min)];
    let hi = [bounds.iter().map(|b| b.1[0]).fold(f64::NEG_INFINITY, f64::max), bounds.iter().map(|b| b.1[1]).fold(f64::NEG_INFINITY, f64::max)];
    let cell = [(hi[0] - lo[0]) / cx as f64, (hi[1] - lo[1]) / cy as f64];
    for _ in 0..20 {
        let b = &bounds[ctx.rng.below(n)];
        let mut q = [0.0; 2];
        for a in 0..2 {
            q[a] = match ctx.rng.below(5) { 0 => b.0[a], 1 => b.1[a], 4 => { let e = (hi[a] - lo[a]) * 2f64.powi(ctx.rng.below(12) as i32 - 5) * ctx.rng.unit(); ctx.count("cluster_queries_outside", 1); if ctx.rng.bool() { lo[a] - e } else { hi[a] + e } } 2 => b.0[a] + (b.1[a] - b.0[a]) * ctx.rng.unit(), _ => lo[a] + (hi[a] - lo[a]) * ctx.rng.unit() };
        }
        let mut v: BTreeMap<usize, usize> = BTreeMap::new();
        c.for_each_candidate(q[0], q[1], &mut |x| { *v.entry(x.id).or_insert(0) += 1; });
        ensure!(v.values().all(|k| *k == 1), "cluster-dup", "an element was visited twice for one query");
        for i in 0..n {
            let inside = (0..2).all(|a| bounds[i].0[a] <= q[a] && q[a] <= bounds[i].1[a]);
            if inside { ensure!(v.contains_key(&i), "cluster-missing", "query {:?} lies in box {:?} which is no candidate ({}x{} cells over {:?}..{:?})", q, bounds[i], cx, cy, lo, hi); ctx.count("cluster_hits", 1); }
            let gap = (0..2).map(|a| (bounds[i].0[a] - q[a]).max(q[a] - bounds[i].1[a]) - cell[a] * (1.0 + 1e-6) - 1e-9 * (lo[a].abs() + hi[a].abs())).fold(f64::NEG_INFINITY, f64::max);
            if gap > 0.0 { ensure!(!v.contains_key(&i), "cluster-far", "query {:?}: candidate {:?} is more than a cell away ({}x{} cells)", q, bounds[i], cx, cy); }
        }
        ctx.count("cluster_queries", 1);
    }
    Ok(())
}

fn kd_probe_knn() -> R {
    let pts: Vec<Point3D> = [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0].iter().map(|x| Point3D::new(*x, 7.0 - *x, 0.5 * *x)).collect();
    let mut t: KdTree<Point3D> = KdTree::default();
    let _ = t.build(PointCloud3D { data: pts.clone() });
    for q in &pts { for k in 2..8usize {
        let mut out = vec![];
        t.knearest(q, k, &mut out);
        let mut got: Vec<f64> = out.iter().map(|p: &Point3D| d3(p, q)).collect();
        got.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut all: Vec<f64> = pts.iter().map(|p| d3(p, q)).collect();
        all.sort_by(|a, b| a.partial_cmp(b).unwrap());
        ensure!(got[..] == all[..k], "kd-knearest", "k={} {:?} against {:?}", k, got, &all[..k]);
    } }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08", level: "exploration", quick: 250_000, thorough: 6_000_000, run: kd,
            probes: &[("knearest-unsorted", kd_probe_knn)],
            rule: "a case is one k-d tree (0..900 points from six distributions, with duplicates, lines and planes) and 4-9 query positions; it is non-trivial when a knearest query with 2 <= k < n ran; distinct by hash of all coordinates",
            must_see: &["knearest_proper", "in_sphere_hits", "in_box_hits", "rebuilds"],
            assumptions: &["finite coordinates up to 1e7", "for inexact distributions distances within 1e-9 of the decision boundary are not judged"],
        },
        Prop {
            id: "C09", level: "exploration", quick: 400_000, thorough: 8_000_000, run: oct,
            probes: &[("boundary-points", oct_probe_boundary), ("depth-overflow", oct_probe_deep), ("neighbouring-doubles", oct_probe_close), ("negative-zero", oct_probe_negzero)],
            rule: "a case is one octree over 0..800 points and a sweep of collect depths; non-trivial when it holds more than two distinct points; distinct by hash of all coordinates",
            must_see: &["trees", "with_duplicates", "flat_rejected", "collects", "collect_levels_matched", "deep_trees", "deep_levels_matched"],
            assumptions: &["finite coordinates", "points that f64 cannot separate by halving may be refused with an error"],
        },
        Prop {
            id: "C10", level: "exploration", quick: 400_000, thorough: 8_000_000, run: aabb,
            probes: &[],
            rule: "a case is one box tree (2D or 3D; random depth limit and bucket size) or x/y cluster with 6-20 rounds of queries of every kind; non-trivial when the tree branches; distinct by hash of the boxes",
            must_see: &["bb_colliding_3d_hits", "collision_candidate_3d_hits", "crossing_x_3d_hits", "crossing_y_3d_hits", "crossing_z_3d_hits", "intersection_candidate_3d_hits", "bb_colliding_2d_hits", "crossing_x_2d_hits", "crossing_y_2d_hits", "cluster_hits", "huge_clusters", "branching_trees"],
            assumptions: &["overlaps within 1e-9 of touching are not judged for inexact coordinates; a ray grazing a box within 1e-5 of the extent is not judged"],
        },
    ]
}
