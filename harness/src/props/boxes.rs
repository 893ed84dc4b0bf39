//! C14 bounding boxes, C15 constrained numbers and directions.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::props::spatial::pos;
use rust_3d::{
    BoundingBox2D, BoundingBox3D, Box2D, Box3D, Circle, ErrorKind, FilterBox2D, FilterBox3D, FilterCircle, FilterSphere, HasBoundingBox2D, HasBoundingBox2DConverted, HasBoundingBox2DMaybe,
    HasBoundingBox3D, HasBoundingBox3DConverted, HasBoundingBox3DMaybe, HasDistanceTo, Is2D, Is3D, IsBuildable2D, IsBuildable3D, IsMergeable, IsMovable2D, IsMovable3D, IsND, IsNormalized2D, IsNormalized3D,
    IsSATObject, IsScalable, LineSegment2D, LineSegment3D, NonNegative, Norm2D, Norm3D, Point2D, Point3D, PointCloud2D, PointCloud3D, Polygon2D, Polygon3D, Positive, Sphere,
};

type V = Vec<f64>;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Why { Equal, Swapped, Few, Other }
fn why(e: ErrorKind) -> Why { match e { ErrorKind::MinMaxEqual => Why::Equal, ErrorKind::MinMaxSwapped => Why::Swapped, ErrorKind::TooFewPoints => Why::Few, _ => Why::Other } }

trait Bx: Sized + Clone + PartialEq + std::fmt::Debug {
    const N: usize;
    fn make(min: &[f64], max: &[f64]) -> Result<Self, Why>;
    fn of_ref(v: &[V]) -> Result<Self, Why>;
    fn of_val(v: &[V]) -> Result<Self, Why>;
    fn of_cloud(v: &[V]) -> Option<Self>;
    /// of a cloud of single precision
    fn of_single(_v: &[V]) -> Option<Option<Self>> { None }
    fn of_polygon(v: &[V]) -> Option<Self>;
    fn lo(&self) -> V;
    fn hi(&self) -> V;
    fn sizes_(&self) -> V;
    fn size_each(&self) -> V;
    fn center_(&self) -> V;
    fn pos_(&self) -> (V, V);
    fn corners_(&self) -> Vec<V>;
    fn inside_(&self, o: &Self) -> bool;
    fn has_(&self, o: &Self) -> bool;
    fn contains_(&self, p: &[f64]) -> bool;
    fn coll_(&self, o: &Self) -> bool;
    fn cross_(&self, d: usize, x: f64) -> bool;
    fn dp_(&self, p: &[f64]) -> (f64, f64);
    fn db_(&self, o: &Self) -> (f64, f64);
    fn move_(&mut self, v: &[f64]);
    fn scale_(&mut self, f: Positive);
    fn consume_(&mut self, o: Self);
    fn combine_(&self, o: &Self) -> Self;
    fn own_bb(&self) -> (Self, Option<Self>);
    fn converted(&self) -> Option<Self>;
    /// center form -> boxes of the box and of the box filter, their centers and min / max
    fn solids(center: &[f64], sizes: &[f64], radius: f64) -> Vec<(&'static str, Self, Option<Self>, V)>;
    fn segment(a: &[f64], b: &[f64]) -> Option<Self>;
    fn box_minmax(center: &[f64], sizes: &[f64]) -> (V, V, V);
    fn roundtrip(&self) -> (V, V);
}
fn a2(v: &[f64]) -> Point2D { Point2D { x: v[0], y: v[1] } }
fn a3(v: &[f64]) -> Point3D { Point3D { x: v[0], y: v[1], z: v[2] } }
fn v2(p: &Point2D) -> V { vec![p.x, p.y] }
fn v3(p: &Point3D) -> V { vec![p.x, p.y, p.z] }

impl Bx for BoundingBox2D {
    const N: usize = 2;
    fn make(min: &[f64], max: &[f64]) -> Result<Self, Why> { BoundingBox2D::new(&a2(min), &a2(max)).map_err(why) }
    fn of_ref(v: &[V]) -> Result<Self, Why> { let p: Vec<Point2D> = v.iter().map(|x| a2(x)).collect(); BoundingBox2D::from_iterator(&p).map_err(why) }
    fn of_val(v: &[V]) -> Result<Self, Why> { BoundingBox2D::from_into_iterator(v.iter().map(|x| a2(x))).map_err(why) }
    fn of_cloud(v: &[V]) -> Option<Self> { PointCloud2D { data: v.iter().map(|x| a2(x)).collect::<Vec<_>>() }.bounding_box_maybe() }
    fn of_polygon(v: &[V]) -> Option<Self> { Polygon2D::from(PointCloud2D { data: v.iter().map(|x| a2(x)).collect::<Vec<_>>() }).bounding_box_maybe() }
    fn lo(&self) -> V { v2(&self.min_p()) }
    fn hi(&self) -> V { v2(&self.max_p()) }
    fn sizes_(&self) -> V { self.sizes().iter().map(|x| **x).collect() }
    fn size_each(&self) -> V { vec![*self.size_x(), *self.size_y()] }
    fn center_(&self) -> V { v2(&self.center_bb()) }
    fn pos_(&self) -> (V, V) { (vec![Is2D::x(self), Is2D::y(self)], (0..2).filter_map(|d| self.position_nd(d)).collect()) }
    fn corners_(&self) -> Vec<V> { self.corners().iter().map(v2).collect() }
    fn inside_(&self, o: &Self) -> bool { self.is_inside(o) }
    fn has_(&self, o: &Self) -> bool { self.has_inside(o) }
    fn contains_(&self, p: &[f64]) -> bool { self.contains(&a2(p)) }
    fn coll_(&self, o: &Self) -> bool { self.collides_with(o) }
    fn cross_(&self, d: usize, x: f64) -> bool { if d == 0 { self.crossing_x_value(x) } else { self.crossing_y_value(x) } }
    fn dp_(&self, p: &[f64]) -> (f64, f64) { (*BoundingBox2D::distance(self, &a2(p)), *BoundingBox2D::sqr_distance(self, &a2(p))) }
    fn db_(&self, o: &Self) -> (f64, f64) { (*HasDistanceTo::<BoundingBox2D>::distance(self, o), *HasDistanceTo::<BoundingBox2D>::sqr_distance(self, o)) }
    fn move_(&mut self, v: &[f64]) { self.move_by(v[0], v[1]) }
    fn scale_(&mut self, f: Positive) { self.scale(f) }
    fn consume_(&mut self, o: Self) { self.consume(o) }
    fn combine_(&self, o: &Self) -> Self { self.combine(o) }
    fn own_bb(&self) -> (Self, Option<Self>) { (self.bounding_box(), self.bounding_box_maybe()) }
    fn converted(&self) -> Option<Self> { HasBoundingBox2DConverted::new(self.clone()).map(|c| { let b = c.bounding_box(); if c.bounding_box_maybe() == Some(b.clone()) && *c.get() == b { b } else { BoundingBox2D::default() } }) }
    fn solids(c: &[f64], s: &[f64], r: f64) -> Vec<(&'static str, Self, Option<Self>, V)> {
        let b = Box2D { center: a2(c), size_x: pos(s[0]), size_y: pos(s[1]) };
        let k = Circle { center: a2(c), radius: pos(r) };
        let (fb, fk) = (FilterBox2D::new(b.clone()), FilterCircle::new(k.clone()));
        vec![("box", b.bounding_box(), b.bounding_box_maybe(), vec![b.x(), b.y()]), ("box", fb.bounding_box(), fb.bounding_box_maybe(), vec![fb.x(), fb.y()]),
            ("ball", k.bounding_box(), k.bounding_box_maybe(), vec![k.x(), k.y()]), ("ball", fk.bounding_box(), fk.bounding_box_maybe(), vec![fk.x(), fk.y()])]
    }
    fn segment(a: &[f64], b: &[f64]) -> Option<Self> { LineSegment2D::new(a2(a), a2(b)).bounding_box_maybe() }
    fn box_minmax(c: &[f64], s: &[f64]) -> (V, V, V) { let b = Box2D { center: a2(c), size_x: pos(s[0]), size_y: pos(s[1]) }; (v2(&b.min_p()), v2(&b.max_p()), b.sizes().iter().map(|x| **x).collect()) }
    fn roundtrip(&self) -> (V, V) { let b: Box2D = <Box2D as From<BoundingBox2D>>::from(self.clone()); (v2(&b.center), vec![*b.size_x, *b.size_y]) }
}
impl Bx for BoundingBox3D {
    const N: usize = 3;
    fn make(min: &[f64], max: &[f64]) -> Result<Self, Why> { BoundingBox3D::new(&a3(min), &a3(max)).map_err(why) }
    fn of_ref(v: &[V]) -> Result<Self, Why> { let p: Vec<Point3D> = v.iter().map(|x| a3(x)).collect(); BoundingBox3D::from_iterator(&p).map_err(why) }
    fn of_val(v: &[V]) -> Result<Self, Why> { BoundingBox3D::from_into_iterator(v.iter().map(|x| a3(x))).map_err(why) }
    fn of_single(v: &[V]) -> Option<Option<Self>> { Some(rust_3d::PointCloud3Df32::<Point3D>::from(v.iter().flatten().map(|x| *x as f32).collect::<Vec<f32>>()).bounding_box_maybe()) }
    fn of_cloud(v: &[V]) -> Option<Self> { PointCloud3D { data: v.iter().map(|x| a3(x)).collect::<Vec<_>>() }.bounding_box_maybe() }
    fn of_polygon(v: &[V]) -> Option<Self> { Polygon3D::from(PointCloud3D { data: v.iter().map(|x| a3(x)).collect::<Vec<_>>() }).bounding_box_maybe() }
    fn lo(&self) -> V { v3(&self.min_p()) }
    fn hi(&self) -> V { v3(&self.max_p()) }
    fn sizes_(&self) -> V { self.sizes().iter().map(|x| **x).collect() }
    fn size_each(&self) -> V { vec![*self.size_x(), *self.size_y(), *self.size_z()] }
    fn center_(&self) -> V { v3(&self.center_bb()) }
    fn pos_(&self) -> (V, V) { (vec![Is3D::x(self), Is3D::y(self), Is3D::z(self)], (0..3).filter_map(|d| self.position_nd(d)).collect()) }
    fn corners_(&self) -> Vec<V> { self.corners().iter().map(v3).collect() }
    fn inside_(&self, o: &Self) -> bool { self.is_inside(o) }
    fn has_(&self, o: &Self) -> bool { self.has_inside(o) }
    fn contains_(&self, p: &[f64]) -> bool { self.contains(&a3(p)) }
    fn coll_(&self, o: &Self) -> bool { self.collides_with(o) }
    fn cross_(&self, d: usize, x: f64) -> bool { match d { 0 => self.crossing_x_value(x), 1 => self.crossing_y_value(x), _ => self.crossing_z_value(x) } }
    fn dp_(&self, p: &[f64]) -> (f64, f64) { (*BoundingBox3D::distance(self, &a3(p)), *BoundingBox3D::sqr_distance(self, &a3(p))) }
    fn db_(&self, o: &Self) -> (f64, f64) { (*HasDistanceTo::<BoundingBox3D>::distance(self, o), *HasDistanceTo::<BoundingBox3D>::sqr_distance(self, o)) }
    fn move_(&mut self, v: &[f64]) { self.move_by(v[0], v[1], v[2]) }
    fn scale_(&mut self, f: Positive) { self.scale(f) }
    fn consume_(&mut self, o: Self) { self.consume(o) }
    fn combine_(&self, o: &Self) -> Self { self.combine(o) }
    fn own_bb(&self) -> (Self, Option<Self>) { (self.bounding_box(), self.bounding_box_maybe()) }
    fn converted(&self) -> Option<Self> { HasBoundingBox3DConverted::new(self.clone()).map(|c| { let b = c.bounding_box(); if c.bounding_box_maybe() == Some(b.clone()) && *c.get() == b { b } else { BoundingBox3D::default() } }) }
    fn solids(c: &[f64], s: &[f64], r: f64) -> Vec<(&'static str, Self, Option<Self>, V)> {
        let b = Box3D { center: a3(c), size_x: pos(s[0]), size_y: pos(s[1]), size_z: pos(s[2]) };
        let k = Sphere { center: a3(c), radius: pos(r) };
        let (fb, fk) = (FilterBox3D::new(b.clone()), FilterSphere::new(k.clone()));
        vec![("box", b.bounding_box(), b.bounding_box_maybe(), vec![b.x(), b.y(), b.z()]), ("box", fb.bounding_box(), fb.bounding_box_maybe(), vec![fb.x(), fb.y(), fb.z()]),
            ("ball", k.bounding_box(), k.bounding_box_maybe(), vec![k.x(), k.y(), k.z()]), ("ball", fk.bounding_box(), fk.bounding_box_maybe(), vec![fk.x(), fk.y(), fk.z()])]
    }
    fn segment(a: &[f64], b: &[f64]) -> Option<Self> { LineSegment3D::new(a3(a), a3(b)).bounding_box_maybe() }
    fn box_minmax(c: &[f64], s: &[f64]) -> (V, V, V) { let b = Box3D { center: a3(c), size_x: pos(s[0]), size_y: pos(s[1]), size_z: pos(s[2]) }; (v3(&b.min_p()), v3(&b.max_p()), b.sizes().iter().map(|x| **x).collect()) }
    fn roundtrip(&self) -> (V, V) { let b: Box3D = <Box3D as From<BoundingBox3D>>::from(self.clone()); (v3(&b.center), vec![*b.size_x, *b.size_y, *b.size_z]) }
}

/// coordinate of any magnitude whose squares stay finite
fn big(ctx: &mut Ctx) -> f64 { loop { let x = any_finite(&mut ctx.rng); if x.abs() < 1e100 && (x == 0.0 || x.abs() > 1e-100) { return x; } } }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Src { D(Dist), Any }
fn c(ctx: &mut Ctx, s: Src) -> f64 { match s { Src::D(d) => coord_special(ctx, d), Src::Any => big(ctx) } }
fn vecn(ctx: &mut Ctx, n: usize, s: Src) -> V { (0..n).map(|_| c(ctx, s)).collect() }
fn tol(xs: &[&[f64]]) -> f64 { 1e-9 * xs.iter().flat_map(|x| x.iter()).map(|x| x.abs()).fold(0.0, f64::max) }
fn near(a: &[f64], b: &[f64], t: f64) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= t) }

fn gen_box<B: Bx>(ctx: &mut Ctx, s: Src) -> (B, V, V) {
    loop {
        let (p, q) = (vecn(ctx, B::N, s), vecn(ctx, B::N, s));
        let lo: V = (0..B::N).map(|d| p[d].min(q[d])).collect();
        let hi: V = (0..B::N).map(|d| p[d].max(q[d])).collect();
        if (0..B::N).all(|d| lo[d] < hi[d]) { if let Ok(b) = B::make(&lo, &hi) { return (b, lo, hi); } }
    }
}
/// a value related to the interval: on its ends, at its middle, inside, outside
fn rel(ctx: &mut Ctx, lo: f64, hi: f64, s: Src) -> f64 {
    match ctx.rng.below(8) { 0 => lo, 1 => hi, 2 => lo / 2.0 + hi / 2.0, 3 => lo - (hi - lo), 4 => hi + (hi - lo) / 2.0, 5 => lo + (hi - lo) / 4.0, _ => c(ctx, s) }
}
fn construct<B: Bx>(ctx: &mut Ctx, s: Src) -> R {
    let n = B::N;
    // from two corners, possibly not ordered
    let (mut p, mut q) = (vecn(ctx, n, s), vecn(ctx, n, s));
    if ctx.rng.chance(1, 3) { let d = ctx.rng.below(n); q[d] = p[d]; }
    // an extent of one unit in the last place, or one of a denormal size
    if ctx.rng.chance(1, 6) { let d = ctx.rng.below(n); q[d] = if p[d] == 0.0 { f64::from_bits(1 + ctx.rng.u64() % 1000) } else if p[d] > 0.0 { f64::from_bits(p[d].to_bits() + 1) } else { f64::from_bits(p[d].to_bits() - 1) }; }
    if ctx.rng.chance(1, 12) { let d = ctx.rng.below(n); p[d] = *ctx.rng.pick(&[0.0, f64::from_bits(7), 1e-250, -1e-230]); q[d] = p[d] + *ctx.rng.pick(&[f64::from_bits(1), 1e-310, 1e-260, 1e-220]); }
    for x in p.iter().chain(&q) { ctx.fpf(*x); }
    if ctx.want_desc { ctx.note(format!("corners {:?} {:?}", p, q)); }
    let (eq, sw) = ((0..n).any(|d| p[d] == q[d]), (0..n).any(|d| p[d] > q[d]));
    match B::make(&p, &q) {
        Ok(b) => { ensure!(!eq && !sw, "box-accepted", "a box from {:?} to {:?} was accepted", p, q); ensure!(b.lo() == p && b.hi() == q, "box-corners", "box of {:?} {:?} is {:?}", p, q, b); ctx.count("accepted", 1); }
        Err(w) => { ensure!(eq || sw, "box-refused", "a box from {:?} to {:?} was refused", p, q); ensure!(w == if eq { Why::Equal } else { Why::Swapped }, "box-error", "box from {:?} to {:?} gives error {:?}", p, q, w); ctx.count("refused", 1); }
    }
    // from positions
    let k = if !ctx.tiny && ctx.rng.chance(1, 6000) { *ctx.rng.pick(&[255, 256, 257, 1024, 3000, 65_536]) } else { match ctx.rng.below(6) { 0 => ctx.rng.below(3), 1 => ctx.rng.below(200), _ => ctx.rng.below(12) } };
    let mut v: Vec<V> = (0..k).map(|_| vecn(ctx, n, s)).collect();
    if ctx.rng.chance(1, 5) { let d = ctx.rng.below(n); for x in v.iter_mut() { x[d] = p[d]; } }
    if ctx.rng.chance(1, 12) { let (d, f) = (ctx.rng.below(n), *ctx.rng.pick(&[1e-180, 1e-240, 1e-290])); for x in v.iter_mut() { x[d] *= f; } }
    if ctx.rng.chance(1, 6) { v.sort_by(|a, b| b[0].partial_cmp(&a[0]).unwrap()); }
    for x in v.iter().flatten() { ctx.fpf(*x); }
    if ctx.want_desc { ctx.note(format!("positions {:?}", v)); }
    let ext = |g: fn(f64, f64) -> f64, z: f64| -> V { (0..n).map(|d| v.iter().map(|x| x[d]).fold(z, g)).collect() };
    let (lo, hi) = (ext(f64::min, f64::INFINITY), ext(f64::max, f64::NEG_INFINITY));
    let flat = k >= 2 && (0..n).any(|d| lo[d] == hi[d]);
    let (r1, r2) = (B::of_ref(&v), B::of_val(&v));
    ensure!(r1 == r2, "box-of-iter", "boxes of references and of values differ: {:?} {:?} for {:?}", r1, r2, v);
    ensure!(r1.clone().ok() == B::of_cloud(&v) && B::of_cloud(&v) == B::of_polygon(&v), "box-of-cloud", "the box of a cloud or polygon differs from the box of its points {:?}: {:?} {:?} {:?}", v, r1, B::of_cloud(&v), B::of_polygon(&v));
    if ctx.rng.chance(1, 4) {
        let w: Vec<V> = v.iter().map(|x| x.iter().map(|c| *c as f32 as f64).collect()).collect();
        if let Some(b) = B::of_single(&v) { ctx.count("single_precision", 1); ensure!(b == B::of_ref(&w).ok(), "box-of-single", "the box of a single precision cloud {:?} is {:?}", w, b); }
    }
    match r1 {
        Ok(b) => { ensure!(k >= 2 && !flat && b.lo() == lo && b.hi() == hi, "box-of-points", "the box of {:?} is {:?}, expected {:?} {:?}", v, b, lo, hi); ctx.nontrivial = true; }
        Err(w) => ensure!(w == if k < 2 { Why::Few } else { Why::Equal } && (k < 2 || flat), "box-of-points", "the box of {:?} gives {:?}", v, w),
    }
    if k >= 2 {
        let sg = B::segment(&v[0], &v[1]);
        ensure!(sg == B::of_ref(&v[..2]).ok(), "box-of-segment", "the box of the segment {:?} is {:?}", &v[..2], sg);
    }
    Ok(())
}
fn queries<B: Bx>(ctx: &mut Ctx, s: Src) -> R {
    let n = B::N;
    let (a, alo, ahi): (B, V, V) = gen_box(ctx, s);
    let (b, blo, bhi): (B, V, V) = {
        // related to the first: sharing sides, touching, nested, far
        loop {
            let p: V = (0..n).map(|d| rel(ctx, alo[d], ahi[d], s)).collect();
            let q: V = (0..n).map(|d| rel(ctx, alo[d], ahi[d], s)).collect();
            let lo: V = (0..n).map(|d| p[d].min(q[d])).collect();
            let hi: V = (0..n).map(|d| p[d].max(q[d])).collect();
            if hi.iter().chain(&lo).all(|x| x.is_finite()) { if let Ok(b) = B::make(&lo, &hi) { break (b, lo, hi); } }
        }
    };
    let p: V = (0..n).map(|d| rel(ctx, alo[d], ahi[d], s)).collect();
    for x in alo.iter().chain(&ahi).chain(&blo).chain(&bhi).chain(&p) { ctx.fpf(*x); }
    if ctx.want_desc { ctx.note(format!("boxes {:?} {:?} position {:?}", a, b, p)); }
    let t = tol(&[&alo, &ahi, &blo, &bhi, &p]);
    // sums and differences of such values are exact
    let exact = alo.iter().chain(&ahi).chain(&blo).chain(&bhi).chain(&p).all(|x| x.abs() < 1e7 && (x * 1024.0).fract() == 0.0);
    let tt = if exact { 0.0 } else { t };
    // parts
    let size: V = (0..n).map(|d| ahi[d] - alo[d]).collect();
    ensure!(a.sizes_() == size && a.size_each() == size, "box-sizes", "sizes of {:?}: {:?} {:?}", a, a.sizes_(), a.size_each());
    let mid: V = (0..n).map(|d| alo[d] / 2.0 + ahi[d] / 2.0).collect();
    ensure!(near(&a.center_(), &mid, tt) && a.pos_().0 == a.center_() && a.pos_().1 == a.center_(), "box-center", "center of {:?}: {:?}, position {:?}", a, a.center_(), a.pos_());
    let mut cs = a.corners_();
    let mut want: Vec<V> = (0..1usize << n).map(|m| (0..n).map(|d| if m >> d & 1 == 1 { ahi[d] } else { alo[d] }).collect()).collect();
    let key = |x: &V| x.iter().map(|f| f.to_bits()).collect::<Vec<_>>();
    cs.sort_by_key(key);
    want.sort_by_key(key);
    ensure!(cs == want, "box-corner-points", "corners of {:?}: {:?}", a, cs);
    ensure!(a.own_bb() == (a.clone(), Some(a.clone())) && a.converted() == Some(a.clone()), "box-own", "the bounding box of {:?} is {:?} / {:?}", a, a.own_bb(), a.converted());
    let rt = a.roundtrip();
    ensure!(near(&rt.0, &mid, tt) && rt.1 == size, "box-solid", "the box made from {:?} has center and sizes {:?}", a, rt);
    // relations
    let inside = |l: &V, h: &V, l2: &V, h2: &V| (0..n).all(|d| l[d] > l2[d] && h[d] < h2[d]);
    ensure!(a.inside_(&b) == inside(&alo, &ahi, &blo, &bhi) && b.has_(&a) == inside(&alo, &ahi, &blo, &bhi), "box-inside", "{:?} is inside {:?}: {} / {}", a, b, a.inside_(&b), b.has_(&a));
    ensure!(b.inside_(&a) == inside(&blo, &bhi, &alo, &ahi) && a.has_(&b) == inside(&blo, &bhi, &alo, &ahi), "box-inside", "{:?} is inside {:?}: {} / {}", b, a, b.inside_(&a), a.has_(&b));
    if inside(&blo, &bhi, &alo, &ahi) { ctx.count("nested", 1); }
    let cp = (0..n).all(|d| p[d] > alo[d] && p[d] < ahi[d]);
    ensure!(a.contains_(&p) == cp, "box-contains", "{:?} contains {:?}: {}", a, p, a.contains_(&p));
    for d in 0..n {
        for x in [p[d], alo[d], ahi[d], blo[d]].iter() { ensure!(a.cross_(d, *x) == (*x > alo[d] && *x < ahi[d]), "box-crossing", "{:?} crosses {} in {}: {}", a, x, d, a.cross_(d, *x)); }
    }
    // overlap of the interiors; per axis distance beyond touching
    let depth = (0..n).map(|d| ahi[d].min(bhi[d]) - alo[d].max(blo[d])).fold(f64::INFINITY, f64::min);
    if exact && depth == 0.0 { ctx.count("touching", 1); }
    for (x, y) in [(&a, &b), (&b, &a)].iter() {
        let g = x.coll_(y);
        if depth > tt { ensure!(g, "box-overlap", "{:?} and {:?} overlap but do not collide", x, y); ctx.count("overlapping", 1); }
        if if exact { depth <= 0.0 } else { depth < -tt } { ensure!(!g, "box-overlap", "{:?} and {:?} collide but do not overlap", x, y); ctx.count("apart", 1); }
    }
    ensure!(a.coll_(&a), "box-overlap", "{:?} does not collide with itself", a);
    // distances
    let gp: V = (0..n).map(|d| (alo[d] - p[d]).max(p[d] - ahi[d]).max(0.0)).collect();
    let gb: V = (0..n).map(|d| (alo[d] - bhi[d]).max(blo[d] - ahi[d]).max(0.0)).collect();
    for (g, (dist, sq), what) in [(&gp, a.dp_(&p), "position"), (&gb, a.db_(&b), "box"), (&gb, b.db_(&a), "box")].iter() {
        let want = g.iter().map(|x| x * x).sum::<f64>();
        ensure!((sq - want).abs() <= 1e-9 * want && (dist - want.sqrt()).abs() <= 1e-9 * want.sqrt(), "box-distance", "distance of {:?} to the {} {:?} / {:?} is {} (squared {}), expected {}", a, what, p, b, dist, sq, want.sqrt());
    }
    // changes
    let m: V = (0..n).map(|_| c(ctx, s)).collect();
    let mut moved = a.clone();
    moved.move_(&m);
    let (wl, wh): (V, V) = ((0..n).map(|d| alo[d] + m[d]).collect(), (0..n).map(|d| ahi[d] + m[d]).collect());
    ensure!(moved.lo() == wl && moved.hi() == wh, "box-move", "{:?} moved by {:?} is {:?}", a, m, moved);
    if s != Src::Any {
        let f = match ctx.rng.below(4) { 0 => 1.0, 1 => 2.0, 2 => 0.5, _ => ctx.rng.f(0.01, 20.0) };
        let mut sc = a.clone();
        sc.scale_(pos(f));
        let (wl, wh): (V, V) = ((0..n).map(|d| mid[d] - 0.5 * f * size[d]).collect(), (0..n).map(|d| mid[d] + 0.5 * f * size[d]).collect());
        ensure!(near(&sc.lo(), &wl, t * (1.0 + f)) && near(&sc.hi(), &wh, t * (1.0 + f)), "box-scale", "{:?} scaled by {} is {:?}", a, f, sc);
    }
    let u = a.combine_(&b);
    let mut u2 = a.clone();
    u2.consume_(b.clone());
    let (wl, wh): (V, V) = ((0..n).map(|d| alo[d].min(blo[d])).collect(), (0..n).map(|d| ahi[d].max(bhi[d])).collect());
    ensure!(u.lo() == wl && u.hi() == wh && u2 == u && b.combine_(&a) == u, "box-union", "{:?} and {:?} combine to {:?} / {:?}", a, b, u, u2);
    ctx.count("box_pairs", 1);
    ctx.nontrivial = true;
    Ok(())
}
fn solids<B: Bx>(ctx: &mut Ctx, s: Src) -> R {
    let n = B::N;
    let ce = vecn(ctx, n, s);
    // sizes that the position does not absorb
    let mag = ce.iter().map(|x| x.abs()).fold(1e-3, f64::max);
    let sz: V = (0..n).map(|_| if ctx.rng.bool() { ctx.rng.range(1, 40) as f64 / 4.0 + mag / 1024.0 } else { mag * ctx.rng.f(0.01, 5.0) }).collect();
    let r = mag * ctx.rng.f(0.01, 3.0);
    for x in ce.iter().chain(&sz) { ctx.fpf(*x); }
    ctx.fpf(r);
    if ctx.want_desc { ctx.note(format!("center {:?} sizes {:?} radius {}", ce, sz, r)); }
    let t = tol(&[&ce, &sz, &[r]]);
    for (name, bb, maybe, at) in B::solids(&ce, &sz, r) {
        let half: V = (0..n).map(|d| if name == "box" { sz[d] / 2.0 } else { r }).collect();
        let (wl, wh): (V, V) = ((0..n).map(|d| ce[d] - half[d]).collect(), (0..n).map(|d| ce[d] + half[d]).collect());
        ensure!(near(&bb.lo(), &wl, t) && near(&bb.hi(), &wh, t) && maybe == Some(bb.clone()), "box-of-solid", "the bounding box of a {} at {:?} (sizes {:?}, radius {}) is {:?} / {:?}", name, ce, sz, r, bb, maybe);
        ensure!(at == ce, "solid-position", "a {} at {:?} reports its position as {:?}", name, ce, at);
    }
    let (l, h, z) = B::box_minmax(&ce, &sz);
    ensure!((0..n).all(|d| (l[d] - (ce[d] - sz[d] / 2.0)).abs() <= t && (h[d] - (ce[d] + sz[d] / 2.0)).abs() <= t) && z == sz, "solid-corners", "box at {:?} with sizes {:?} reaches from {:?} to {:?}", ce, sz, l, h);
    ctx.count("solids", 1);
    ctx.nontrivial = true;
    Ok(())
}
fn case<B: Bx>(ctx: &mut Ctx) -> R {
    let s = if ctx.rng.chance(1, 8) { Src::Any } else { Src::D(*ctx.rng.pick(&DISTS)) };
    match ctx.rng.below(10) { 0..=2 => construct::<B>(ctx, s), 3 => { let s = if s == Src::Any { Src::D(Dist::Wide) } else { s }; solids::<B>(ctx, s) } _ => queries::<B>(ctx, s) }
}
fn boxes(ctx: &mut Ctx) -> R { if ctx.rng.bool() { case::<BoundingBox2D>(ctx) } else { case::<BoundingBox3D>(ctx) } }

// ---------------------------------------------------------------- C15
fn number(ctx: &mut Ctx) -> f64 {
    match ctx.rng.below(8) { 0 => *ctx.rng.pick(&[0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324, -5e-324]), 1 => any_finite(&mut ctx.rng), 2 => ctx.rng.range(-3, 3) as f64, _ => coord(&mut ctx.rng, Dist::Wide) }
}
/// results the property speaks about: exact result representable in the type
fn sane(x: f64) -> bool { x.is_finite() }
fn constrained(ctx: &mut Ctx) -> R {
    let x = number(ctx);
    ctx.fpf(x);
    match Positive::new(x) {
        Some(p) => { ensure!(x > 0.0 && p.to_bits() == x.to_bits(), "positive-new", "Positive from {:?} holds {:?}", x, *p); }
        None => ensure!(!(x > 0.0), "positive-new", "Positive refuses {:?}", x),
    }
    match NonNegative::new(x) {
        Some(p) => { ensure!(x >= 0.0 && p.to_bits() == x.to_bits(), "nonnegative-new", "NonNegative from {:?} holds {:?}", x, *p); }
        None => ensure!(!(x >= 0.0), "nonnegative-new", "NonNegative refuses {:?}", x),
    }
    ensure!(*Positive::one() == 1.0 && *Positive::default() == 1.0 && *NonNegative::zero() == 0.0 && *NonNegative::one() == 1.0 && *NonNegative::default() == 0.0, "number-constants", "constants changed");
    ctx.count("constructions", 2);
    // a history of operations, mirrored on plain floats
    let start = ctx.rng.f(0.001, 1000.0);
    let (mut p, mut n) = (Positive::new(start).expect("HARNESS"), NonNegative::new(if ctx.rng.bool() { 0.0 } else { start }).expect("HARNESS"));
    let (mut fp, mut fnn) = (*p, *n);
    let mut log = format!("positive {:?} nonnegative {:?}", fp, fnn);
    for _ in 0..2 + ctx.rng.below(12) {
        let a = match ctx.rng.below(5) { 4 => { let e = 10f64.powi(ctx.rng.range(-320, 308) as i32); if e > 0.0 { e } else { 5e-324 } } 0 => ctx.rng.range(1, 8) as f64, 1 => ctx.rng.f(1e-6, 1.0), 2 => 10f64.powi(ctx.rng.range(-40, 40) as i32), _ => ctx.rng.f(0.1, 1000.0) };
        let b = if ctx.rng.chance(1, 4) { 0.0 } else { a };
        let (pa, nb) = (Positive::new(a).expect("HARNESS"), NonNegative::new(b).expect("HARNESS"));
        let op = ctx.rng.below(26);
        ctx.fpu(op as u64);
        ctx.fpf(a);
        // expected value first; operations whose result leaves the range of floats are not performed
        let want = match op {
            0 | 2 => fp + a, 1 | 3 => fp + b, 4 | 5 => fp * a, 6 => fp.sqrt(), 7 => fp / a, 8 => fp / b, 9 => fp * b,
            10 | 12 => fnn + b, 11 | 13 => fnn + a, 14 | 16 => fnn * b, 15 | 17 => fnn * a, 18 | 20 => fnn / b, 19 | 21 => fnn / a, 22 => fnn.sqrt(),
            _ => fp,
        };
        if !sane(want) || (op < 7 && want == 0.0) { ctx.count("out_of_range_operations", 1); continue; }
        let mut onto_p = false;
        let got: f64 = match op {
            0 => { p = p + pa; onto_p = true; *p }
            1 => { p = p + nb; onto_p = true; *p }
            2 => { p += pa; onto_p = true; *p }
            3 => { p += nb; onto_p = true; *p }
            4 => { p = p * pa; onto_p = true; *p }
            5 => { p *= pa; onto_p = true; *p }
            6 => { p = p.sqrt(); onto_p = true; *p }
            7 => { n = p / pa; *n }
            8 => { n = p / nb; *n }
            9 => { n = p * nb; *n }
            10 => { n = n + nb; *n }
            11 => { n = n + pa; *n }
            12 => { n += nb; *n }
            13 => { n += pa; *n }
            14 => { n = n * nb; *n }
            15 => { n = n * pa; *n }
            16 => { n *= nb; *n }
            17 => { n *= pa; *n }
            18 => { n = n / nb; *n }
            19 => { n = n / pa; *n }
            20 => { n /= nb; *n }
            21 => { n /= pa; *n }
            22 => { n = n.sqrt(); *n }
            23 => { n = NonNegative::from(p); *n }
            24 => { n = p.into(); let f: f64 = p.into(); let g: f64 = n.into(); ensure!(f.to_bits() == g.to_bits(), "number-into", "conversions differ: {} {}", f, g); *n.as_ref() }
            _ => { ensure!(format!("{}", p) == format!("{}", fp) && format!("{}", n) == format!("{}", fnn), "number-display", "shown as {} {}, holding {} {}", p, n, fp, fnn); n = NonNegative::from(p); *p.as_ref() }
        };
        log.push_str(&format!("; op {} with {:?} -> {:?}", op, if [1, 3, 8, 9, 10, 12, 14, 16, 18, 20].contains(&op) { b } else { a }, got));
        ensure!((got - want).abs() <= 1e-12 * want.abs() || got.to_bits() == want.to_bits(), "number-result", "{}: expected {:?}", log, want);
        if want.abs() < f64::MIN_POSITIVE && want != 0.0 { ctx.count("subnormal_results", 1); }
        if onto_p { ensure!(got > 0.0, "positive-broken", "{}", log); fp = got; } else { ensure!(got >= 0.0, "nonnegative-broken", "{}", log); fnn = got; }
        ensure!(p.to_bits() == fp.to_bits() && n.to_bits() == fnn.to_bits(), "number-other", "{}: an operation changed another number", log);
        ensure!(p.partial_cmp(&pa) == fp.partial_cmp(&a) && (n == nb) == (fnn == b), "number-compare", "{}: comparison", log);
        ctx.count("operations", 1);
    }
    if ctx.want_desc { ctx.note(log); }
    ctx.nontrivial = true;
    Ok(())
}
fn component(ctx: &mut Ctx, m: f64) -> f64 { match ctx.rng.below(6) { 0 => 0.0, 1 => m, 2 => -m, 3 => m * 2f64.powi(-(ctx.rng.below(60) as i32)), _ => ctx.rng.f(-1.0, 1.0) * m } }
fn unit_ok(v: &[f64], got: &[f64], what: &str) -> R {
    // reference: scale by a power of two first, so that nothing over- or underflows
    let max = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let e = max.log2().floor().max(-1070.0).min(1020.0);
    let h = (e / 2.0).trunc();
    let sc: V = v.iter().map(|x| x / 2f64.powf(h) / 2f64.powf(e - h)).collect();
    let l = sc.iter().map(|x| x * x).sum::<f64>().sqrt();
    let len = got.iter().map(|x| x * x).sum::<f64>().sqrt();
    ensure!((len - 1.0).abs() < 1e-12, "norm-length", "{} of {:?} is {:?} with length {:?}", what, v, got, len);
    ensure!(sc.iter().zip(got).all(|(x, g)| (x / l - g).abs() <= 1e-12 * (x / l).abs() + 1e-290), "norm-direction", "{} of {:?} is {:?}", what, v, got);
    Ok(())
}
fn norms(ctx: &mut Ctx) -> R {
    let n = 2 + ctx.rng.below(2);
    let m = match ctx.rng.below(6) { 0 => f64::MAX, 1 => f64::from_bits(1 + ctx.rng.below(1 << 20) as u64), 2 => 1.0, 3 => any_finite(&mut ctx.rng).abs(), _ => 10f64.powi(ctx.rng.range(-300, 300) as i32) };
    let mut v: V = (0..n).map(|_| component(ctx, m)).collect();
    let special = ctx.rng.chance(1, 12);
    if special { let k = ctx.rng.below(n); v[k] = *ctx.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); }
    if ctx.rng.chance(1, 30) { for x in v.iter_mut() { *x = if ctx.rng.bool() { 0.0 } else { -0.0 }; } }
    for x in &v { ctx.fpf(*x); }
    if ctx.want_desc { ctx.note(format!("direction of {:?}", v)); }
    let valid = v.iter().all(|x| x.is_finite()) && v.iter().any(|x| *x != 0.0);
    // a number, a direction back and its opposite, both as vectors
    let k = ctx.rng.f(-5.0, 5.0);
    let r: Option<(V, V, V, V, V)> = if n == 2 {
        let p = Point2D { x: v[0], y: v[1] };
        Norm2D::new(p).ok().map(|q| { let xy = vec![q.x(), q.y()]; let nd = (0..2).filter_map(|d| q.position_nd(d)).collect(); (xy, nd, { let o = -&q; let o2 = -q.clone(); if o == o2 { vec![o.x(), o.y()] } else { vec![] } }, v2(&(&q * k)), v2(&(q * k))) })
    } else {
        let p = Point3D { x: v[0], y: v[1], z: v[2] };
        Norm3D::new(p).ok().map(|q| { let xy = vec![q.x(), q.y(), q.z()]; let nd = (0..3).filter_map(|d| q.position_nd(d)).collect(); (xy, nd, { let o = -&q; let o2 = -q.clone(); if o == o2 { vec![o.x(), o.y(), o.z()] } else { vec![] } }, v3(&(&q * k)), v3(&(q * k))) })
    };
    match r {
        None => { ensure!(!valid, "norm-refused", "{:?} has a direction but it was refused", v); ctx.count("refused_directions", 1); }
        Some((xyz, nd, neg, s1, s2)) => {
            ensure!(valid, "norm-accepted", "{:?} has no direction but gave {:?}", v, xyz);
            unit_ok(&v, &xyz, "the direction")?;
            ensure!(nd == xyz && neg.len() == n && (0..n).all(|d| neg[d] == -xyz[d]), "norm-negation", "direction {:?}: by dimension {:?}, negated {:?}", xyz, nd, neg);
            ensure!(s1 == s2 && (0..n).all(|d| s1[d] == k * xyz[d]), "norm-times", "direction {:?} times {} is {:?} / {:?}", xyz, k, s1, s2);
            ctx.count("directions", 1);
            if m > 1e155 { ctx.count("huge_directions", 1); }
            if m < 1e-155 { ctx.count("tiny_directions", 1); }
            ctx.nontrivial = true;
        }
    }
    let c3: Vec<V> = [Norm3D::norm_x(), Norm3D::norm_y(), Norm3D::norm_z(), Norm3D::norm_x_neg(), Norm3D::norm_y_neg(), Norm3D::norm_z_neg()].iter().map(|q| vec![q.x(), q.y(), q.z()]).collect();
    ensure!(c3 == [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [-1., 0., 0.], [0., -1., 0.], [0., 0., -1.]].iter().map(|x| x.to_vec()).collect::<Vec<_>>(), "norm-axes", "axis directions {:?}", c3);
    let c2: Vec<V> = [Norm2D::norm_x(), Norm2D::norm_y(), Norm2D::norm_x_neg(), Norm2D::norm_y_neg()].iter().map(|q| vec![q.x(), q.y()]).collect();
    ensure!(c2 == [[1., 0.], [0., 1.], [-1., 0.], [0., -1.]].iter().map(|x| x.to_vec()).collect::<Vec<_>>(), "norm-axes", "axis directions {:?}", c2);
    // vectors normalize themselves, too
    if valid && v.iter().all(|x| *x == 0.0 || x.abs() > 1e-100 && x.abs() < 1e100) {
        let g: Option<V> = if n == 2 { IsBuildable2D::normalized(&Point2D { x: v[0], y: v[1] }).ok().map(|q| v2(&q)) } else { IsBuildable3D::normalized(&Point3D { x: v[0], y: v[1], z: v[2] }).ok().map(|q| v3(&q)) };
        match g { Some(g) => unit_ok(&v, &g, "the normalized point")?, None => return fail("norm-refused", format!("{:?} could not be normalized", v)) }
    }
    if v.iter().all(|x| *x == 0.0) {
        let e = if n == 2 { IsBuildable2D::normalized(&Point2D { x: v[0], y: v[1] }).is_err() } else { IsBuildable3D::normalized(&Point3D { x: v[0], y: v[1], z: v[2] }).is_err() };
        ensure!(e, "norm-accepted", "the zero vector was normalized");
    }
    Ok(())
}
fn numbers(ctx: &mut Ctx) -> R { if ctx.rng.bool() { constrained(ctx) } else { norms(ctx) } }

// ---------------------------------------------------------------- probes
fn probe_norm_overflow() -> R {
    for m in [1e200, 1e-200, f64::MAX, 5e-324].iter() {
        match Norm3D::new(Point3D { x: *m, y: 0.0, z: 0.0 }) { Ok(q) => ensure!(q.x() == 1.0 && q.y() == 0.0, "norm-direction", "direction of ({}, 0, 0) is {:?}", m, q), Err(e) => return fail("norm-refused", format!("({}, 0, 0): {:?}", m, e)) }
        match Norm2D::new(Point2D { x: 0.0, y: -*m }) { Ok(q) => ensure!(q.y() == -1.0, "norm-direction", "direction of (0, -{}) is {:?}", m, q), Err(e) => return fail("norm-refused", format!("(0, -{}): {:?}", m, e)) }
    }
    Ok(())
}
fn probe_underflow() -> R {
    let p = pos(1e-200) * pos(1e-200);
    ensure!(*p > 0.0, "positive-broken", "the product of the positive numbers 1e-200 and 1e-200 is a Positive holding {}", *p);
    Ok(())
}
fn probe_zero_by_zero() -> R {
    let p = NonNegative::zero() / NonNegative::zero();
    ensure!(*p >= 0.0, "nonnegative-broken", "0 / 0 is a NonNegative holding {}", *p);
    Ok(())
}

fn p_default() -> R {
    let (a, b) = (BoundingBox2D::default(), BoundingBox3D::default());
    let v = [a.min_p().x(), a.min_p().y(), b.min_p().x(), b.min_p().y(), b.min_p().z(), a.max_p().x(), a.max_p().y(), b.max_p().x(), b.max_p().y(), b.max_p().z()];
    ensure!(v[..5].iter().all(|x| *x == -0.5) && v[5..].iter().all(|x| *x == 0.5), "default", "the default boxes are {:?} {:?}", a, b);
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C14", rule: "bounding boxes are the per axis intervals and every query follows from them", quick: 9_000_000, thorough: 60_000_000, run: boxes, probes: &[("default-boxes", p_default)],
            must_see: &["accepted", "refused", "nested", "touching", "overlapping", "apart", "box_pairs", "solids"], level: "exploration",
            assumptions: &["finite coordinates below 1e100", "for inexact coordinates, overlaps within rounding of touching may be decided either way"] },
        Prop { id: "C15", rule: "constrained numbers keep their constraint and directions their length", quick: 9_000_000, thorough: 50_000_000, run: numbers,
            probes: &[("norm-overflow", probe_norm_overflow), ("positive-underflow", probe_underflow), ("nonnegative-zero-by-zero", probe_zero_by_zero)],
            must_see: &["constructions", "operations", "subnormal_results", "directions", "refused_directions", "huge_directions", "tiny_directions"], level: "exploration",
            assumptions: &["operations whose exact result is outside of the range of floats are not judged (two such cases are known findings)"] },
    ]
}
#[allow(dead_code)]
fn unused<T: IsSATObject>(_: &T) {}
