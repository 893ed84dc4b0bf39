//! C23 collision checks; C28 rays, lines, planes and angles.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::props::spatial::pos;
use rust_3d::{
    closest_intersecting, closest_intersecting_mut, collect_intersections_ray_mesh, for_each_intersecting, index_closest_intersecting, intersection, intersection_ray_triangle, normal_of_face, project_point_on_plane, AABBTree3D, BoundingBox3D,
    BoxUnaligned3D, Collider3D, HasBoundingBox3D, HasBoundingBox3DMaybe, HasColliders3D, Is2D, Is3D, IsBuildable2D, IsBuildable3D, IsColliderContainer3D, IsEditable2D, IsEditable3D, IsFaceEditableMesh, IsMovable3D, IsNormalized3D,
    IsPlane3D, IsSATObject, IsVertexEditableMesh, Line3D, Mesh3D, Norm3D, Plane3D, Point2D, Point3D, PointCloud3D, Ray3D, SATCollider, TriFace3D, VId,
};
use std::collections::{LinkedList, VecDeque};
use std::rc::Rc;

type A = [f64; 3];
fn a3<P: Is3D + ?Sized>(p: &P) -> A { [p.x(), p.y(), p.z()] }
fn sub(a: A, b: A) -> A { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn add(a: A, b: A) -> A { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
fn mul(a: A, f: f64) -> A { [a[0] * f, a[1] * f, a[2] * f] }
fn dot(a: A, b: A) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn crs(a: A, b: A) -> A { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn len(a: A) -> f64 { dot(a, a).sqrt() }
fn unit(a: A) -> A { mul(a, 1.0 / len(a)) }
fn maxabs(a: A) -> f64 { a.iter().fold(0.0, |m: f64, x| m.max(x.abs())) }
fn p(a: A) -> Point3D { Point3D { x: a[0], y: a[1], z: a[2] } }
fn n3(a: A) -> Norm3D { Norm3D::new(p(a)).unwrap() }

// ================================================================== C23
/// the harness' own description of a body
#[derive(Clone, Debug)]
enum Body {
    Aabb(A, A),
    Box(A, [A; 3], A), // center, directions, sizes
    Tri(A, A, A),
}
impl Body {
    fn corners(&self) -> Vec<A> {
        match self {
            Body::Aabb(l, h) => (0..8).map(|k| [if k & 1 == 0 { l[0] } else { h[0] }, if k & 2 == 0 { l[1] } else { h[1] }, if k & 4 == 0 { l[2] } else { h[2] }]).collect(),
            Body::Box(c, d, s) => (0..8).map(|k| (0..3).fold(*c, |a, i| add(a, mul(d[i], s[i] * if k >> i & 1 == 0 { -0.5 } else { 0.5 })))).collect(),
            Body::Tri(a, b, c) => vec![*a, *b, *c],
        }
    }
    fn axes(&self) -> Vec<A> {
        match self {
            Body::Aabb(..) => vec![[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
            Body::Box(_, d, _) => d.to_vec(),
            Body::Tri(a, b, c) => {
                let n = unit(crs(sub(*b, *a), sub(*c, *b)));
                vec![n, unit(crs(n, sub(*b, *a))), unit(crs(n, sub(*c, *b))), unit(crs(n, sub(*a, *c)))]
            }
        }
    }
    fn bounds(&self) -> (A, A) {
        let c = self.corners();
        let (mut l, mut h) = (c[0], c[0]);
        for q in &c { for d in 0..3 { l[d] = l[d].min(q[d]); h[d] = h[d].max(q[d]); } }
        (l, h)
    }
    fn scale(&self) -> f64 { self.corners().iter().fold(0.0, |m: f64, c| m.max(maxabs(*c))) }
    /// thin triangles have no reliable normal
    fn thin(&self) -> bool {
        if let Body::Tri(a, b, c) = self {
            let l = len(sub(*b, *a)).max(len(sub(*c, *b))).max(len(sub(*a, *c)));
            return len(crs(sub(*b, *a), sub(*c, *b))) < 1e-5 * l * l;
        }
        false
    }
    fn moved(&self, v: A) -> Body {
        match self {
            Body::Aabb(l, h) => Body::Aabb(add(*l, v), add(*h, v)),
            Body::Box(c, d, s) => Body::Box(add(*c, v), *d, *s),
            Body::Tri(a, b, c) => Body::Tri(add(*a, v), add(*b, v), add(*c, v)),
        }
    }
}
/// largest gap (positive) / smallest overlap (negative) of the projections over all directions of both bodies
fn gap(a: &Body, b: &Body) -> f64 {
    let (ca, cb) = (a.corners(), b.corners());
    let mut g = f64::NEG_INFINITY;
    for ax in a.axes().into_iter().chain(b.axes()) {
        let iv = |c: &[A]| c.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), q| { let x = dot(*q, ax); (l.min(x), h.max(x)) });
        let ((la, ha), (lb, hb)) = (iv(&ca), iv(&cb));
        g = g.max((lb - ha).max(la - hb));
    }
    g
}
/// Some(collides) if it is clear
fn clear(a: &Body, b: &Body) -> Option<bool> {
    if let (Body::Aabb(l, h), Body::Aabb(m, i)) = (a, b) {
        // exact arithmetic for coarse coordinates, which may touch
        let coarse = l.iter().chain(h).chain(m).chain(i).all(|x| (x * 1024.0).fract() == 0.0 && x.abs() < 1e6);
        let g = (0..3).fold(f64::NEG_INFINITY, |g, d| g.max(m[d] - h[d]).max(l[d] - i[d]));
        if !coarse && g.abs() <= 1e-12 * (a.scale() + b.scale()) { return None; }
        return Some(g < 0.0);
    }
    if a.thin() || b.thin() { return None; }
    let g = gap(a, b);
    let tol = 1e-8 * (a.scale() + b.scale());
    if g > tol { Some(false) } else if g < -tol { Some(true) } else { None }
}
fn rdir(ctx: &mut Ctx) -> A {
    loop {
        let v = match ctx.rng.below(5) {
            0 => [ctx.rng.range(-1, 1) as f64, ctx.rng.range(-1, 1) as f64, ctx.rng.range(-1, 1) as f64],
            1 => [ctx.rng.range(-9, 9) as f64, ctx.rng.range(-9, 9) as f64, ctx.rng.range(-9, 9) as f64],
            _ => [ctx.rng.f(-1.0, 1.0), ctx.rng.f(-1.0, 1.0), ctx.rng.f(-1.0, 1.0)],
        };
        if len(v) > 0.05 { return unit(v); }
    }
}
fn extent(ctx: &mut Ctx, d: Dist) -> f64 { loop { let x = coord(&mut ctx.rng, d).abs(); let k = crate::gen::unit(d); if x > 1e-3 * k && x < 1e5 * k { return x; } } }
fn c3(ctx: &mut Ctx, d: Dist) -> A { [coord(&mut ctx.rng, d), coord(&mut ctx.rng, d), coord(&mut ctx.rng, d)] }
/// a body around (roughly) the position
fn body(ctx: &mut Ctx, d: Dist, at: A, small: f64) -> Body {
    match ctx.rng.below(7) {
        0 | 1 => {
            let s = [extent(ctx, d) * small, extent(ctx, d) * small, extent(ctx, d) * small];
            Body::Aabb(at, add(at, s))
        }
        2 => {
            // turned about z
            let s = [extent(ctx, d) * small, extent(ctx, d) * small, extent(ctx, d) * small];
            let phi = turn(ctx);
            Body::Box(at, [[phi.cos(), -phi.sin(), 0.0], [phi.sin(), phi.cos(), 0.0], [0.0, 0.0, 1.0]], s)
        }
        3 | 4 => {
            let s = [extent(ctx, d) * small, extent(ctx, d) * small, extent(ctx, d) * small];
            let y = rdir(ctx);
            let z = loop { let c = crs(y, rdir(ctx)); if len(c) > 0.1 { break unit(c); } };
            Body::Box(at, [unit(crs(y, z)), y, z], s)
        }
        _ => loop {
            let t = Body::Tri(add(at, mul(c3(ctx, d), small)), add(at, mul(c3(ctx, d), small)), add(at, mul(c3(ctx, d), small)));
            let (l, h) = t.bounds();
            if (0..3).all(|k| h[k] - l[k] > 1e-3 * small * crate::gen::unit(d)) { break t; }
        },
    }
}
fn turn(ctx: &mut Ctx) -> f64 {
    use std::f64::consts::PI;
    match ctx.rng.below(5) {
        0 => 0.0,
        1 => ctx.rng.range(-8, 8) as f64 * PI / 4.0,
        2 => ctx.rng.range(-24, 24) as f64 * PI / 12.0,
        3 => ctx.rng.f(-1000.0, 1000.0),
        _ => ctx.rng.f(-PI, PI),
    }
}
enum Real { Aabb(BoundingBox3D), Box(BoxUnaligned3D), Tri(TriFace3D) }
fn sizes(s: A) -> [rust_3d::Positive; 3] { [pos(s[0]), pos(s[1]), pos(s[2])] }
fn real(ctx: &mut Ctx, b: &Body) -> Result<Real, Fail> {
    Ok(match b {
        Body::Aabb(l, h) => match BoundingBox3D::new(&p(*l), &p(*h)) { Ok(x) => Real::Aabb(x), Err(e) => return fail("make", format!("no bounding box {:?} {:?}: {:?}", l, h, e)).map(|_: ()| unreachable!()) },
        Body::Box(c, d, s) => {
            // sometimes created elsewhere and moved
            let off = if ctx.rng.bool() { [0.0; 3] } else { let k = b.scale().log2().floor().exp2(); mul(c3(ctx, Dist::Grid), k) };
            let at = p(sub(*c, off));
            let mut x = if d[2] == [0.0, 0.0, 1.0] { BoxUnaligned3D::new_from_z_rotation(&at, sizes(*s), d[1][0].atan2(d[1][1]) + ctx.rng.range(-2, 2) as f64 * 2.0 * std::f64::consts::PI) } else { BoxUnaligned3D { center: at, y_dir: n3(d[1]), z_dir: n3(d[2]), size: sizes(*s) } };
            if off != [0.0; 3] || ctx.rng.bool() { x.move_by(off[0], off[1], off[2]); }
            Real::Box(if ctx.rng.bool() { x.clone() } else { x })
        }
        Body::Tri(a, b, c) => match TriFace3D::new(p(*a), p(*b), p(*c)) {
            Ok(t) => { ensure!(a3(t.a()) == *a && a3(t.b()) == *b && a3(t.c()) == *c, "corners", "face of {:?} {:?} {:?} has corners {:?} {:?} {:?}", a, b, c, t.a(), t.b(), t.c()); Real::Tri(t) }
            Err(e) => return fail("make", format!("no face {:?} {:?} {:?}: {:?}", a, b, c, e)).map(|_: ()| unreachable!()),
        },
    })
}
fn collider(ctx: &mut Ctx, b: &Body) -> Result<Collider3D, Fail> {
    Ok(match real(ctx, b)? { Real::Aabb(x) => Collider3D::AABB(x), Real::Box(x) => Collider3D::Box3(x), Real::Tri(x) => Collider3D::Face(x) })
}
/// corners, directions and bounding box as the body defines them
fn shape<S: IsSATObject>(what: &str, s: &S, b: &Body) -> R {
    let tol = 1e-9 * b.scale();
    let mut got: Vec<A> = vec![];
    s.for_each_point(&mut |q: &Point3D| got.push(a3(q)));
    let want = b.corners();
    for w in &want { ensure!(got.iter().any(|g| maxabs(sub(*g, *w)) <= tol), "corners", "{} {:?}: corner {:?} is missing in {:?}", what, b, w, got); }
    for g in &got { ensure!(want.iter().any(|w| maxabs(sub(*g, *w)) <= tol), "corners", "{} {:?}: {:?} is no corner", what, b, g); }
    if b.thin() { return Ok(()); }
    let mut axes: Vec<A> = vec![];
    s.for_each_axis(&mut |n: &Norm3D| axes.push(a3(n)));
    for w in b.axes() { ensure!(axes.iter().any(|g| maxabs(sub(*g, w)) <= 1e-8 || maxabs(add(*g, w)) <= 1e-8), "directions", "{} {:?}: direction {:?} is missing in {:?}", what, b, w, axes); }
    Ok(())
}
fn bounded<B: HasBoundingBox3D + HasBoundingBox3DMaybe>(what: &str, x: &B, b: &Body) -> R {
    let (l, h) = b.bounds();
    let tol = if let Body::Box(..) = b { 1e-9 * b.scale() } else { 0.0 };
    let bb = x.bounding_box();
    ensure!(maxabs(sub(a3(&bb.min_p()), l)) <= tol && maxabs(sub(a3(&bb.max_p()), h)) <= tol, "bounds", "{} {:?} has the bounding box {:?}", what, b, bb);
    ensure!(x.bounding_box_maybe() == Some(bb), "bounds", "{}: bounding boxes differ", what);
    Ok(())
}
/// a type of a user, made of several colliders
struct Compound { parts: Vec<Collider3D>, bb: BoundingBox3D, additional: bool }
impl HasBoundingBox3DMaybe for Compound { fn bounding_box_maybe(&self) -> Option<BoundingBox3D> { Some(self.bb.clone()) } }
impl HasBoundingBox3D for Compound { fn bounding_box(&self) -> BoundingBox3D { self.bb.clone() } }
impl HasColliders3D for Compound {
    fn has_additional_colliders(&self) -> bool { self.additional }
    fn with_colliders(&self, f: &mut dyn FnMut(&Collider3D)) { for c in &self.parts { f(c); } }
}
#[derive(Clone)]
struct Shared(Rc<Compound>);
impl HasBoundingBox3DMaybe for Shared { fn bounding_box_maybe(&self) -> Option<BoundingBox3D> { self.0.bounding_box_maybe() } }
impl HasBoundingBox3D for Shared { fn bounding_box(&self) -> BoundingBox3D { self.0.bounding_box() } }
impl HasColliders3D for Shared {
    fn has_additional_colliders(&self) -> bool { self.0.has_additional_colliders() }
    fn with_colliders(&self, f: &mut dyn FnMut(&Collider3D)) { self.0.with_colliders(f) }
}
struct Comp { bodies: Vec<Body>, bb: (A, A), additional: bool }
impl Comp {
    fn used(&self) -> Vec<Body> { if self.additional { self.bodies.clone() } else { vec![Body::Aabb(self.bb.0, self.bb.1)] } }
    fn clear(&self, o: &Comp) -> Option<bool> { any3(self.used().iter().flat_map(|a| o.used().into_iter().map(move |b| clear(a, &b)).collect::<Vec<_>>())) }
}
fn any3(i: impl Iterator<Item = Option<bool>>) -> Option<bool> {
    let mut r = Some(false);
    for x in i { match x { Some(true) => return Some(true), None => r = None, _ => {} } }
    r
}
fn comp(ctx: &mut Ctx, d: Dist, near: A, honest: bool) -> Result<(Compound, Comp), Fail> {
    let k = ctx.rng.below(4);
    let mut bodies: Vec<Body> = (0..k).map(|_| { let at = add(near, c3(ctx, d)); let s = *ctx.rng.pick(&[1.0, 0.5, 0.25]); body(ctx, d, at, s) }).collect();
    if k > 0 && ctx.rng.chance(1, 100) {
        // many bodies far away, the others at the end
        let n = 1 + ctx.rng.below(if ctx.thorough { 1000 } else { 120 });
        let far = [1e3 * crate::gen::unit(d), 1e4 * crate::gen::unit(d), 0.0];
        let mut all: Vec<Body> = (0..n).map(|i| bodies[i % k].moved(mul(far, 1.0 + (i % 7) as f64))).collect();
        all.append(&mut bodies);
        bodies = all;
        ctx.count("compounds of many", 1);
    }
    let mut parts = vec![];
    for b in &bodies { parts.push(collider(ctx, b)?); }
    // the box need not have to do with the parts
    let mut l = add(near, c3(ctx, d));
    let mut h = add(l, [extent(ctx, d), extent(ctx, d), extent(ctx, d)]);
    if honest && !bodies.is_empty() {
        let bs: Vec<(A, A)> = bodies.iter().map(|b| b.bounds()).collect();
        for j in 0..3 { l[j] = bs.iter().fold(f64::INFINITY, |m, b| m.min(b.0[j])) - 0.01 * crate::gen::unit(d); h[j] = bs.iter().fold(f64::NEG_INFINITY, |m, b| m.max(b.1[j])) + 0.01 * crate::gen::unit(d); }
    }
    let additional = ctx.rng.chance(2, 3);
    Ok((Compound { parts, bb: BoundingBox3D::new(&p(l), &p(h)).unwrap(), additional }, Comp { bodies, bb: (l, h), additional }))
}
fn shown(b: &Body) -> String { format!("{:?}", b) }

/// bodies along the axes with coarse coordinates: their projections on the axes are exact, so that touching is decided
fn touching(ctx: &mut Ctx) -> R {
    let q = |ctx: &mut Ctx, lo: i64, hi: i64| ctx.rng.range(lo, hi) as f64 / 8.0;
    let mut l = [0.0; 3];
    let mut h = [0.0; 3];
    for j in 0..3 { l[j] = q(ctx, -64, 64); h[j] = l[j] + q(ctx, 8, 40); }
    let (k, up) = (ctx.rng.below(3), ctx.rng.bool());
    let e = *ctx.rng.pick(&[0.0, 0.0, 0.0, 1.0 / 1024.0, -1.0 / 1024.0]); // gap along axis k
    let at = if up { h[k] + e } else { l[k] - e };
    let face = ctx.rng.chance(1, 3);
    let m = if face {
        // one or two corners of the triangle at the side of the box, the first within it
        let n = 1 + ctx.rng.below(2);
        let mut t = [[0.0; 3]; 3];
        for (i, c) in t.iter_mut().enumerate() {
            for j in 0..3 {
                c[j] = if j == k { if i < n { at } else { let o = q(ctx, 1, 40); if up { at + o } else { at - o } } }
                    else if i == 0 { l[j] + (h[j] - l[j]) * (0.25 + 0.25 * ctx.rng.below(3) as f64) }
                    else { q(ctx, -90, 90) };
            }
        }
        let r = ctx.rng.below(3);
        t.rotate_left(r);
        Body::Tri(t[0], t[1], t[2])
    } else {
        let (mut a, mut b) = ([0.0; 3], [0.0; 3]);
        for j in 0..3 {
            let s = q(ctx, 8, 40);
            if j == k { a[j] = if up { at } else { at - s }; b[j] = a[j] + s; }
            else if ctx.rng.chance(1, 5) { a[j] = h[j]; b[j] = a[j] + s; } // an edge or a corner only
            else { a[j] = l[j] - s + 0.125 + q(ctx, 0, 64).min(h[j] - l[j] + s - 0.25); b[j] = a[j] + s; }
        }
        Body::Aabb(a, b)
    };
    let a = Body::Aabb(l, h);
    if m.thin() { return Ok(()); }
    let (bl, bh) = m.bounds();
    if (0..3).any(|j| bh[j] - bl[j] < 0.125) { return Ok(()); }
    // what is decided along the axes has to be decided clearly along the other directions
    let (ca, cb) = (a.corners(), m.corners());
    let mut apart = (0..3).any(|j| bl[j] > h[j] || l[j] > bh[j]);
    if face {
        for ax in m.axes() {
            let iv = |c: &[A]| c.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), q| { let x = dot(*q, ax); (l.min(x), h.max(x)) });
            let ((la, ha), (lb, hb)) = (iv(&ca), iv(&cb));
            let g = (lb - ha).max(la - hb);
            if g.abs() < 1e-7 { return Ok(()); }
            if g > 0.0 { apart = true; }
        }
    }
    for c in ca.iter().chain(&cb) { for x in c { ctx.fpf(*x); } }
    if ctx.want_desc { ctx.desc = format!("touching: {} / {}", shown(&a), shown(&m)); }
    ctx.nontrivial = true;
    let turned = |ctx: &mut Ctx, l: A, h: A| -> Result<BoxUnaligned3D, Fail> {
        if ctx.rng.bool() {
            return Ok(BoxUnaligned3D::new_from_z_rotation(&p(mul(add(l, h), 0.5)), sizes(sub(h, l)), 0.0));
        }
        let b = match BoundingBox3D::new(&p(l), &p(h)) { Ok(b) => b, Err(e) => return fail("make", format!("no bounding box {:?} {:?}: {:?}", l, h, e)).map(|_: ()| unreachable!()) };
        Ok(BoxUnaligned3D::new_from_bb(&b))
    };
    let ra = if ctx.rng.bool() { real(ctx, &a)? } else { Real::Box(turned(ctx, l, h)?) };
    let rb = match &m { Body::Aabb(a, b) if ctx.rng.bool() => Real::Box(turned(ctx, *a, *b)?), _ => real(ctx, &m)? };
    let mut got = vec![];
    macro_rules! both { ($x:expr, $y:expr) => {{ got.push(("collide", SATCollider::collide($x, $y))); got.push(("collide swapped", SATCollider::collide($y, $x))); }} }
    match (&ra, &rb) {
        (Real::Aabb(x), Real::Aabb(y)) => both!(x, y),
        (Real::Aabb(x), Real::Box(y)) => both!(x, y),
        (Real::Aabb(x), Real::Tri(y)) => both!(x, y),
        (Real::Box(x), Real::Aabb(y)) => both!(x, y),
        (Real::Box(x), Real::Box(y)) => both!(x, y),
        (Real::Box(x), Real::Tri(y)) => both!(x, y),
        _ => {}
    }
    let aligned = matches!((&ra, &rb), (Real::Aabb(_), Real::Aabb(_)));
    let conv = |r: Real| match r { Real::Aabb(x) => Collider3D::AABB(x), Real::Box(x) => Collider3D::Box3(x), Real::Tri(x) => Collider3D::Face(x) };
    let (xa, xb) = (conv(ra), conv(rb));
    // two aligned boxes collide as bounding boxes do (see C14), touching is none there
    if !aligned { got.push(("collider", xa.collides_with(&xb))); got.push(("collider swapped", xb.collides_with(&xa))); }
    for (n, g) in got { ensure!(g == !apart, "touching", "{}: {:?} and {:?} collide {}, should be {} (gap along axis {}: {})", n, a, m, g, !apart, k, e); }
    ctx.count(if apart { "almost touching" } else if e == 0.0 { "touching exactly" } else { "hardly overlapping" }, 1);
    Ok(())
}

fn c23(ctx: &mut Ctx) -> R {
    if ctx.rng.chance(1, 12) { return touching(ctx); }
    let d = *ctx.rng.pick(&[Dist::Grid, Dist::Grid, Dist::Dyadic, Dist::Uniform, Dist::Lattice, Dist::Small, Dist::Large, Dist::Tiny, Dist::Huge]);
    let o = c3(ctx, d);
    if ctx.rng.chance(1, 4) {
        // compounds and containers
        // a search tree may rely on the bounding boxes
        let tree = ctx.rng.chance(1, 3);
        let (x, mx) = comp(ctx, d, o, tree)?;
        // many elements of which only the last one might collide
        let many = !ctx.tiny && ctx.rng.chance(1, 250);
        let k = if many { 40 + ctx.rng.below(900) } else { ctx.rng.below(if tree { 10 } else { 5 }) };
        let (mut els, mut ms) = (vec![], vec![]);
        for _ in 0..k { let off = if ctx.rng.bool() { mul(c3(ctx, d), 3.0) } else { [0.0; 3] }; let (a, b) = comp(ctx, d, add(o, off), tree)?; els.push(a); ms.push(b); }
        if many {
            let (mut apart, mut hit) = (vec![], vec![]);
            for (a, b) in els.drain(..).zip(ms.drain(..)) { match mx.clear(&b) { Some(false) => apart.push((a, b)), Some(true) => hit.push((a, b)), None => {} } }
            if ctx.rng.chance(3, 4) { if let Some(x) = hit.pop() { apart.push(x); } }
            for (a, b) in apart { els.push(a); ms.push(b); }
            ctx.count("containers with many elements", 1);
        }
        let k = els.len();
        for v in o { ctx.fpf(v); }
        for (e, m) in els.iter().zip(&ms) {
            ctx.fpf(m.bb.0[0]);
            let w = mx.clear(m);
            if let Some(w) = w {
                ctx.count(if w { "compounds colliding" } else { "compounds apart" }, 1);
                let (g, h) = (HasColliders3D::collides_with(&x, e), HasColliders3D::collides_with(e, &x));
                ensure!(g == w && h == w, "compound", "{:?} / {:?} (additional {} / {}): collides {} / {}, should be {}", mx.bodies, m.bodies, mx.additional, m.additional, g, h, w);
            }
            for (c, b) in x.parts.iter().zip(&mx.bodies) {
                if let Some(w) = any3(m.used().iter().map(|u| clear(u, b))) {
                    ensure!(e.collides_with_collider(c) == w, "compound", "{:?} (additional {}) and {:?}: should be {}", m.bodies, m.additional, b, w);
                    let g = HasColliders3D::collides_with(c, e);
                    ensure!(g == w, "compound", "{:?} and {:?} (additional {}): should be {}", b, m.bodies, m.additional, w);
                }
            }
        }
        let w = any3(ms.iter().map(|m| mx.clear(m)));
        let aabb = |c: &Comp| Body::Aabb(c.bb.0, c.bb.1);
    let wb = any3(ms.iter().map(|m| clear(&aabb(m), &aabb(&mx))));
        if tree {
            let both = |a: Option<bool>, b: Option<bool>| match (a, b) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None };
            let w = any3(ms.iter().map(|m| both(mx.clear(m), clear(&aabb(m), &aabb(&mx)))));
            let t = AABBTree3D::new(els.into_iter().map(|e| Shared(Rc::new(e))).collect(), ctx.rng.below(if many { 3 } else { 6 }), ctx.rng.below(if many { 2000 } else { 4 }));
            let (gc, gb) = (t.any_element_collides_with_collider(&x), t.any_element_collides_with_bounding(&x));
            if let Some(w) = w { ensure!(gc == w, "container", "a tree of {} elements, collision {}, should be {}", k, gc, w); ctx.count(if w { "trees colliding" } else { "trees apart" }, 1); }
            if let Some(wb) = wb { ensure!(gb == wb, "container-bounds", "a tree of {} elements, bounding boxes overlap {}, should be {}", k, gb, wb); }
            ctx.nontrivial = true;
            return Ok(());
        }
        let (v, dq, ll): (Vec<Compound>, VecDeque<Compound>, LinkedList<Compound>);
        let (gc, gb) = match ctx.rng.below(3) {
            0 => { v = els; (v.any_element_collides_with_collider(&x), v.any_element_collides_with_bounding(&x)) }
            1 => { dq = els.into_iter().collect(); (dq.any_element_collides_with_collider(&x), dq.any_element_collides_with_bounding(&x)) }
            _ => { ll = els.into_iter().collect(); (ll.any_element_collides_with_collider(&x), ll.any_element_collides_with_bounding(&x)) }
        };
        if let Some(w) = w { ensure!(gc == w, "container", "{} elements, collision {}, should be {}", k, gc, w); ctx.count(if w { "containers colliding" } else { "containers apart" }, 1); }
        if let Some(wb) = wb { ensure!(gb == wb, "container-bounds", "{} elements, bounding boxes overlap {}, should be {}", k, gb, wb); }
        ctx.nontrivial = true;
        return Ok(());
    }
    let sm = *ctx.rng.pick(&[1.0, 0.5, 0.125]);
    let a = body(ctx, d, o, sm);
    let at = if ctx.rng.bool() { o } else { c3(ctx, d) };
    let sm = *ctx.rng.pick(&[1.0, 0.5, 0.125]);
    let mut b = body(ctx, d, at, sm);
    match ctx.rng.below(4) {
        // shared position / nearly touching along one of the directions
        0 => { let (i, j) = (a.corners(), b.corners()); let v = sub(i[ctx.rng.below(i.len())], j[ctx.rng.below(j.len())]); b = b.moved(v); }
        1 if !a.thin() && !b.thin() => {
            let ax = if ctx.rng.bool() { a.axes() } else { b.axes() };
            let ax = ax[ctx.rng.below(ax.len())];
            let top = a.corners().iter().fold(f64::NEG_INFINITY, |m, c| m.max(dot(*c, ax)));
            let bot = b.corners().iter().fold(f64::INFINITY, |m, c| m.min(dot(*c, ax)));
            let e = *ctx.rng.pick(&[1e-5, -1e-5, 1e-3, -1e-3, 0.05, -0.05]) * (a.scale() + b.scale());
            b = b.moved(mul(ax, top - bot + e));
        }
        _ => {}
    }
    // moving by a huge amount must not flatten the box
    if let Body::Aabb(l, h) = &b { if (0..3).any(|k| h[k] <= l[k]) { return Ok(()); } }
    if let Body::Tri(..) = &b { let (l, h) = b.bounds(); if (0..3).any(|k| h[k] <= l[k]) { return Ok(()); } }
    for c in a.corners().iter().chain(&b.corners()) { for x in c { ctx.fpf(*x); } }
    if ctx.want_desc { ctx.desc = format!("{} / {}", shown(&a), shown(&b)); }
    let (ra, rb) = (real(ctx, &a)?, real(ctx, &b)?);
    for (r, m) in [(&ra, &a), (&rb, &b)] {
        match r {
            Real::Aabb(x) => shape("bounding box", x, m)?,
            Real::Box(x) => { shape("box", x, m)?; bounded("box", x, m)?; if let Body::Box(_, dd, _) = m { let g = a3(&x.x_dir()); ensure!(maxabs(sub(g, dd[0])) <= 1e-9 || maxabs(add(g, dd[0])) <= 1e-9, "directions", "{:?}: x direction {:?}", m, g); } }
            Real::Tri(x) => { shape("face", x, m)?; bounded("face", x, m)?; }
        }
        ctx.count("shapes", 1);
    }
    let w = clear(&a, &b);
    let sat = |x: &Real, y: &Real| -> Option<bool> {
        Some(match (x, y) {
            (Real::Aabb(_), Real::Aabb(_)) => return None, // touching differs, see the collider
            (Real::Aabb(x), Real::Box(y)) => SATCollider::collide(x, y),
            (Real::Aabb(x), Real::Tri(y)) => SATCollider::collide(x, y),
            (Real::Box(x), Real::Aabb(y)) => SATCollider::collide(x, y),
            (Real::Box(x), Real::Box(y)) => SATCollider::collide(x, y),
            (Real::Box(x), Real::Tri(y)) => SATCollider::collide(x, y),
            (Real::Tri(x), Real::Aabb(y)) => SATCollider::collide(x, y),
            (Real::Tri(x), Real::Box(y)) => SATCollider::collide(x, y),
            (Real::Tri(x), Real::Tri(y)) => SATCollider::collide(x, y),
        })
    };
    let (s1, s2) = (sat(&ra, &rb), sat(&rb, &ra));
    if let (Real::Aabb(x), true) = (&ra, ctx.rng.bool()) {
        let (l, h) = (a3(&x.min_p()), a3(&x.max_p()));
        let sc = maxabs(l).max(maxabs(h));
        let y = BoxUnaligned3D::new_from_bb(x);
        let m = Body::Box(mul(add(l, h), 0.5), [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], sub(h, l));
        if (0..3).all(|k| h[k] - l[k] > 1e-6 * sc) { shape("box of a bounding box", &y, &m)?; bounded("box of a bounding box", &y, &m)?; }
    }
    let conv = |r: Real| match r { Real::Aabb(x) => Collider3D::AABB(x), Real::Box(x) => Collider3D::Box3(x), Real::Tri(x) => Collider3D::Face(x) };
    let (ca, cb) = (conv(ra), conv(rb));
    bounded("collider", &ca, &a)?;
    bounded("collider", &cb, &b)?;
    let kind = |x: &Body| match x { Body::Aabb(..) => 0, Body::Box(..) => 1, Body::Tri(..) => 2 };
    ctx.count(["pairs box/box aligned", "pairs aligned/turned", "pairs aligned/face", "pairs turned/turned", "pairs turned/face", "pairs face/face"][match (kind(&a).min(kind(&b)), kind(&a).max(kind(&b))) { (0, 0) => 0, (0, 1) => 1, (0, _) => 2, (1, 1) => 3, (1, _) => 4, _ => 5 }], 1);
    match w {
        Some(w) => {
            for (n, g) in [("collide", s1), ("collide swapped", s2), ("collider", Some(ca.collides_with(&cb))), ("collider swapped", Some(cb.collides_with(&ca))), ("has colliders", Some(HasColliders3D::collides_with(&ca, &cb))), ("has colliders swapped", Some(HasColliders3D::collides_with(&cb, &ca)))] {
                if let Some(g) = g { ensure!(g == w, if w { "collision-missed" } else { "collision-invented" }, "{}: {:?} and {:?} collide {}, should be {} (gap {:?})", n, a, b, g, w, gap(&a, &b)); }
            }
            ctx.count(if w { "colliding" } else { "apart" }, 1);
        }
        None => ctx.count("touching or thin", 1),
    }
    // bodies that share a position always collide
    if ctx.rng.bool() && !a.thin() && !b.thin() {
        let inside = |ctx: &mut Ctx, m: &Body| -> A { let c = m.corners(); let w: Vec<f64> = c.iter().map(|_| 0.1 + ctx.rng.unit()).collect(); let s: f64 = w.iter().sum(); c.iter().zip(&w).fold([0.0; 3], |acc, (q, x)| add(acc, mul(*q, x / s))) };
        let v = sub(inside(ctx, &a), inside(ctx, &b));
        let b2 = b.moved(v);
        let ok = { let (l, h) = b2.bounds(); (0..3).all(|k| h[k] - l[k] > 1e-6 * b2.scale()) };
        if ok && gap(&a, &b2) < -1e-8 * (a.scale() + b2.scale()) {
            let (x, y) = (collider(ctx, &a)?, collider(ctx, &b2)?);
            ensure!(x.collides_with(&y) && y.collides_with(&x), "collision-missed", "{:?} and {:?} share a position", a, b2);
            ctx.count("sharing a position", 1);
        } else if gap(&a, &b2) > 1e-6 * (a.scale() + b2.scale()) { return fail("harness", format!("oracle separates {:?} and {:?}", a, b2)); }
    }
    // faces without extent are refused
    if ctx.rng.chance(1, 4) {
        let q: Vec<A> = (0..3).map(|_| c3(ctx, Dist::Grid)).collect();
        let w = (0..3).all(|k| q.iter().any(|x| x[k] != q[0][k]));
        let g = TriFace3D::new(p(q[0]), p(q[1]), p(q[2])).is_ok();
        ensure!(g == w, "make", "face {:?} accepted {}, should be {}", q, g, w);
        ctx.count(if w { "faces accepted" } else { "faces refused" }, 1);
    }
    ctx.nontrivial = true;
    Ok(())
}

// ================================================================== C28
fn ray_of(o: A, d: A) -> Ray3D { Ray3D::new(Line3D::new(p(o), n3(d))) }
fn raydir(ctx: &mut Ctx) -> A {
    if ctx.rng.chance(1, 3) { let mut v = [0.0, -0.0, 0.0]; let k = ctx.rng.below(3); v[k] = if ctx.rng.bool() { 1.0 } else { -1.0 }; if ctx.rng.bool() { for x in v.iter_mut() { if *x == 0.0 { *x = -*x; } } } v } else { rdir(ctx) }
}
/// Some(Some(position)) clear hit, Some(None) clear miss
fn tri_oracle(r: &Ray3D, t: &[A; 3]) -> Option<Option<A>> {
    let (o, d) = (a3(&r.line.anchor), a3(&r.line.dir));
    let (e1, e2) = (sub(t[1], t[0]), sub(t[2], t[0]));
    let l = len(e1).max(len(e2)).max(len(sub(t[2], t[1])));
    let c = crs(e1, e2);
    if len(c) == 0.0 { return Some(None); }
    if len(c) < 1e-6 * l * l { return None; } // thin
    let n = unit(c);
    let b = dot(n, d);
    let w = sub(t[0], o);
    let scale = l + maxabs(o) + maxabs(t[0]);
    if b == 0.0 && (maxabs(n) == 1.0 || dot(c, d) == 0.0) && dot(n, w).abs() > 1e-9 * scale { return Some(None); }
    if b.abs() < 1e-4 { return None; }
    let k = dot(n, w) / b;
    let tol = 1e-15 * scale / b.abs() * 100.0 * (1.0 + l * l / len(c));
    if k < -tol { return Some(None); }
    let q = add(o, mul(d, k));
    // distances to the edges, positive inside
    let mut m = f64::INFINITY;
    for i in 0..3 { let e = sub(t[(i + 1) % 3], t[i]); m = m.min(dot(crs(n, e), sub(q, t[i])) / len(e)); }
    if m < -tol { return Some(None); }
    if m > tol && k > tol { return Some(Some(q)); }
    None
}
/// a mesh takes faces with three different vertices only
fn proper(f: &[usize; 3]) -> bool { f[0] != f[1] && f[0] != f[2] && f[1] != f[2] }
fn triangle(ctx: &mut Ctx) -> R {
    let d = *ctx.rng.pick(&[Dist::Grid, Dist::Grid, Dist::Dyadic, Dist::Uniform, Dist::Lattice, Dist::Cluster, Dist::Small, Dist::Large, Dist::Tiny, Dist::Huge]);
    // a mesh with some faces, the ray aims at one of them (or anywhere)
    let nv = 3 + ctx.rng.below(10);
    let mut v: Vec<A> = (0..nv).map(|_| c3(ctx, d)).collect();
    if ctx.rng.chance(1, 4) { let k = ctx.rng.below(3); let x = v[0][k]; for q in v.iter_mut() { q[k] = x; } }
    let nf = 1 + ctx.rng.below(8);
    let faces: Vec<[usize; 3]> = (0..nf).map(|_| [ctx.rng.below(nv), ctx.rng.below(nv), ctx.rng.below(nv)]).filter(|f| proper(f)).collect();
    if faces.is_empty() { return Ok(()); }
    let nf = faces.len();
    let dir = raydir(ctx);
    let o = if ctx.rng.chance(3, 4) {
        let f = faces[ctx.rng.below(nf)];
        let w: Vec<f64> = match ctx.rng.below(6) { 0 => vec![0.98, 0.01, 0.01], 1 => vec![0.4995, 0.4995, 0.001], 2 => vec![0.6, 0.6, -0.2], 3 => vec![0.505, 0.505, -0.01], 4 => vec![0.25, 0.25, 0.5], _ => vec![ctx.rng.unit(), ctx.rng.unit(), ctx.rng.unit()] };
        let r = ctx.rng.below(3);
        let s: f64 = w.iter().sum();
        let q = (0..3).fold([0.0; 3], |a, i| add(a, mul(v[f[i]], w[(i + r) % 3] / s)));
        let k = *ctx.rng.pick(&[1.0, 3.0, 0.01, -1.0, -0.01, 50.0, 0.5]) * if ctx.rng.chance(1, 4) { 1.0 } else { crate::gen::unit(d) };
        sub(q, mul(dir, k))
    } else { c3(ctx, d) };
    let ray = ray_of(o, dir);
    for q in &v { ctx.fpf(q[0]); ctx.fpf(q[1]); }
    ctx.fpf(o[0]); ctx.fpf(o[1]); ctx.fpf(dir[0]); ctx.fpf(dir[1]);
    if ctx.want_desc { ctx.desc = format!("vertices {:?} faces {:?} ray {:?} {:?}", v, faces, o, dir); }
    let mut each: Vec<Option<A>> = vec![];
    for f in &faces {
        let t = [v[f[0]], v[f[1]], v[f[2]]];
        let g = intersection_ray_triangle(&ray, &p(t[0]), &p(t[1]), &p(t[2])).map(|q: Point3D| a3(&q));
        let scale = maxabs(o) + t.iter().fold(0.0, |m: f64, q| m.max(maxabs(*q)));
        match tri_oracle(&ray, &t) {
            Some(Some(w)) => {
                match g { None => return fail("hit-missed", format!("ray {:?} {:?} hits {:?} at {:?}, not reported", o, dir, t, w)), Some(g) => ensure!(maxabs(sub(g, w)) <= 1e-8 * scale, "hit-position", "ray {:?} {:?} hits {:?} at {:?}, reported {:?}", o, dir, t, w, g) }
                ctx.count("triangles hit", 1);
            }
            Some(None) => {
                if let Some(g) = g {
                    // a face without area that the ray comes near to is undecided
                    let near = len(crs(sub(t[1], t[0]), sub(t[2], t[0]))) == 0.0 && { let e = if t[1] != t[0] { sub(t[1], t[0]) } else { sub(t[2], t[0]) }; e == [0.0; 3] || len(crs(unit(e), sub(g, t[0]))) < 1e-9 * scale };
                    ensure!(near, "hit-invented", "ray {:?} {:?} misses {:?}, reported hit at {:?}", o, dir, t, g);
                }
                ctx.count("triangles missed", 1);
            }
            None => ctx.count("triangles undecided", 1),
        }
        each.push(g);
        // normal of the face
        let n = a3(&normal_of_face(&p(t[0]), &p(t[1]), &p(t[2])));
        let c = crs(sub(t[1], t[0]), sub(t[2], t[1]));
        if c == [0.0; 3] { ensure!(n == [0.0, 0.0, 1.0], "normal", "normal of the face {:?} without area is {:?}", t, n); ctx.count("normals of faces without area", 1); }
        else {
            let l = len(sub(t[1], t[0])) * len(sub(t[2], t[1]));
            if len(c) > 1e-6 * l { ensure!(maxabs(sub(n, unit(c))) < 1e-8, "normal", "normal of {:?} is {:?}, should be {:?}", t, n, unit(c)); ctx.count("normals", 1); }
        }
    }
    // all of a mesh
    let mut m: Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>> = Mesh3D::default();
    for q in &v { m.add_vertex(p(*q)); }
    for f in &faces { m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).unwrap(); }
    let before: Vec<A> = (0..ctx.rng.below(3)).map(|i| [i as f64, 0.5, 0.25]).collect();
    let mut got: Vec<Point3D> = before.iter().map(|q| p(*q)).collect();
    collect_intersections_ray_mesh(&ray, &m, &mut got);
    let want: Vec<A> = before.iter().cloned().chain(each.iter().filter_map(|x| *x)).collect();
    let scale = maxabs(o) + v.iter().fold(0.0, |m: f64, q| m.max(maxabs(*q)));
    ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| maxabs(sub(a3(g), *w)) <= 1e-9 * scale), "collect", "ray {:?} {:?} mesh {:?} {:?}: collected {}, should be {:?}", o, dir, v, faces, show3(&got), want);
    ctx.count("meshes", 1);
    Ok(())
}
/// Some(Some(entry)) clear hit, Some(None) clear miss
fn box_oracle(l: &Line3D, lo: A, hi: A) -> Option<Option<A>> {
    let (o, d) = (a3(&l.anchor), a3(&l.dir));
    let scale = maxabs(o) + maxabs(lo) + maxabs(hi);
    let (mut t0, mut t1) = (f64::NEG_INFINITY, f64::INFINITY);
    let mut tol: f64 = 1e-12 * scale;
    for k in 0..3 {
        if d[k] == 0.0 {
            if o[k] < lo[k] || o[k] > hi[k] { return Some(None); }
            continue;
        }
        let (a, b) = ((lo[k] - o[k]) / d[k], (hi[k] - o[k]) / d[k]);
        t0 = t0.max(a.min(b));
        t1 = t1.min(a.max(b));
        if d[k].abs() < 1e-3 { if a.abs().min(b.abs()) < 1e5 * scale { tol = tol.max(1e-15 * scale / d[k].abs()); } }
    }
    if !(tol < 1e-3 * scale) { return None; }
    if t1 < -tol || t0 > t1 + tol { return Some(None); }
    if t1 > tol && t1 - t0 > tol || (d.iter().filter(|x| **x == 0.0).count() == 2 && t1 > tol) { return Some(Some(add(o, mul(d, t0)))); }
    None
}
struct Thing { bb: Option<BoundingBox3D>, id: usize, touched: bool }
impl HasBoundingBox3DMaybe for Thing { fn bounding_box_maybe(&self) -> Option<BoundingBox3D> { self.bb.clone() } }
fn boxes(ctx: &mut Ctx) -> R {
    let d = *ctx.rng.pick(&[Dist::Grid, Dist::Grid, Dist::Dyadic, Dist::Uniform, Dist::Lattice, Dist::Small, Dist::Large, Dist::Tiny, Dist::Huge]);
    let n = if !ctx.tiny && ctx.rng.chance(1, 2000) { ctx.count("many boxes", 1); *ctx.rng.pick(&[255usize, 256, 257, 1000, 5000]) } else { ctx.rng.below(12) };
    let mut things: Vec<Thing> = vec![];
    let mut bounds: Vec<Option<(A, A)>> = vec![];
    for id in 0..n {
        let lo = c3(ctx, d);
        let hi = add(lo, [extent(ctx, d), extent(ctx, d), extent(ctx, d)]);
        let b = if ctx.rng.chance(1, 8) { None } else if id > 0 && ctx.rng.chance(1, 8) { bounds[ctx.rng.below(id)] } else { Some((lo, hi)) };
        things.push(Thing { bb: b.map(|(l, h)| BoundingBox3D::new(&p(l), &p(h)).unwrap()), id, touched: false });
        bounds.push(b);
        for x in lo.iter().chain(&hi) { ctx.fpf(*x); }
    }
    let dir = raydir(ctx);
    let some: Vec<(A, A)> = bounds.iter().filter_map(|x| *x).collect();
    let o = if !some.is_empty() && ctx.rng.chance(2, 3) {
        let (l, h) = *ctx.rng.pick(&some);
        let mut q = [0.0; 3];
        for k in 0..3 { q[k] = match ctx.rng.below(6) { 0 => l[k], 1 => h[k], 2 => 0.5 * (l[k] + h[k]), _ => ctx.rng.f(l[k], h[k]) }; }
        let k = *ctx.rng.pick(&[0.0, 1.0, 8.0, 1000.0, -1.0, -8.0]) * if ctx.rng.chance(1, 4) { 1.0 } else { crate::gen::unit(d) };
        sub(q, mul(dir, k))
    } else { c3(ctx, d) };
    let ray = ray_of(o, dir);
    for x in o.iter().chain(&dir) { ctx.fpf(*x); }
    if ctx.want_desc { ctx.desc = format!("boxes {:?} ray {:?} {:?}", bounds, o, dir); }
    let scale = maxabs(o) + some.iter().fold(0.0, |m: f64, (l, h)| m.max(maxabs(*l)).max(maxabs(*h)));
    let mut each: Vec<Option<A>> = vec![];
    for (t, b) in things.iter().zip(&bounds) {
        let (bb, (l, h)) = match (&t.bb, b) { (Some(x), Some(y)) => (x, *y), _ => { each.push(None); continue; } };
        let g = intersection(&ray.line, bb).map(|q| a3(&q));
        match box_oracle(&ray.line, l, h) {
            Some(Some(w)) => {
                match g { None => return fail("box-missed", format!("line {:?} {:?} meets {:?} {:?} at {:?}, not reported", o, dir, l, h, w)), Some(g) => ensure!(maxabs(sub(g, w)) <= 1e-8 * (scale + maxabs(w)), "box-position", "line {:?} {:?} enters {:?} {:?} at {:?}, reported {:?}", o, dir, l, h, w, g) }
                ctx.count("boxes hit", 1);
            }
            Some(None) => { ensure!(g.is_none(), "box-invented", "line {:?} {:?} misses {:?} {:?}, reported {:?}", o, dir, l, h, g); ctx.count("boxes missed", 1); }
            None => ctx.count("boxes undecided", 1),
        }
        each.push(g);
    }
    let hits: Vec<(usize, A, f64)> = each.iter().enumerate().filter_map(|(i, x)| x.map(|q| (i, q, len(sub(q, o))))).collect();
    let best = hits.iter().fold(f64::INFINITY, |m, h| m.min(h.2));
    let ok = |what: &str, g: Option<(A, usize)>| -> R {
        match g {
            None => ensure!(hits.is_empty(), "closest", "{}: nothing found for line {:?} {:?}, hits {:?}", what, o, dir, hits),
            Some((q, id)) => {
                let h = hits.iter().find(|h| h.0 == id);
                match h { None => return fail("closest", format!("{}: box {} is not hit by line {:?} {:?}, hits {:?}", what, id, o, dir, hits)), Some(h) => ensure!(h.2 <= best + 1e-9 * (scale + best) && maxabs(sub(h.1, q)) <= 1e-9 * (scale + maxabs(q)), "closest", "{}: box {} at {:?} for line {:?} {:?}, hits {:?}", what, id, q, o, dir, hits) }
            }
        }
        Ok(())
    };
    ok("closest", closest_intersecting(&ray, things.iter()).map(|(q, t)| (a3(&q), t.id)))?;
    ok("index of the closest", index_closest_intersecting(&ray, things.iter()).map(|(q, i)| (a3(&q), i)))?;
    let m = closest_intersecting_mut(&ray, things.iter_mut()).map(|(q, t)| { t.touched = true; (a3(&q), t.id) });
    ok("closest mutable", m.clone())?;
    ensure!(things.iter().all(|t| t.touched == m.as_ref().map(|x| x.1 == t.id).unwrap_or(false)), "closest", "another element was changed");
    let mut seen: Vec<(usize, A)> = vec![];
    for_each_intersecting(&ray, things.iter_mut(), &mut |q, t| seen.push((t.id, a3(q))));
    ensure!(seen.len() == hits.len() && seen.iter().zip(&hits).all(|(s, h)| s.0 == h.0 && maxabs(sub(s.1, h.1)) <= 1e-9 * (scale + maxabs(h.1))), "for-each", "line {:?} {:?}: calls for {:?}, hits {:?}", o, dir, seen, hits);
    if hits.len() > 1 { ctx.count("several boxes hit", 1); }
    ctx.count("closest searches", 1);
    Ok(())
}
fn planes(ctx: &mut Ctx) -> R {
    let d = *ctx.rng.pick(&DISTS);
    let (o, q) = (c3(ctx, d), c3(ctx, d));
    let (u, v) = (raydir(ctx), raydir(ctx));
    let pl: Plane3D<Point3D, Norm3D> = if ctx.rng.chance(1, 10) { Plane3D::default() } else { Plane3D::new(p(o), n3(u), n3(v)) };
    let (o, u, v) = (a3(&pl.origin()), a3(&pl.u()), a3(&pl.v()));
    for x in o.iter().chain(&q).chain(&u).chain(&v) { ctx.fpf(*x); }
    if ctx.want_desc { ctx.desc = format!("plane {:?} {:?} {:?} point {:?}", o, u, v, q); }
    let g: Point2D = project_point_on_plane(&pl, &p(q));
    let r = sub(q, o);
    let tol = 1e-14 * (r[0].abs() + r[1].abs() + r[2].abs());
    ensure!((g.x - dot(u, r)).abs() <= tol && (g.y - dot(v, r)).abs() <= tol, "project", "{:?} on the plane {:?} {:?} {:?} is {:?}", q, o, u, v, g);
    ctx.count("projections", 1);
    // angles
    let (a, b) = match ctx.rng.below(5) { 0 => (o, mul(o, *ctx.rng.pick(&[2.0, -1.0, 0.1, -3.0]))), 1 => (q, q), 2 => (u, v), _ => (o, q) };
    // angles don't depend on the length
    let (a, b) = if ctx.rng.chance(1, 4) {
        let (i, j) = (ctx.rng.range(-90, 90) as i32, ctx.rng.range(-90, 90) as i32);
        ctx.count("scaled angles", 1);
        (mul(a, 2f64.powi(3 * i / 2)), mul(b, 2f64.powi(if ctx.rng.bool() { 3 * i / 2 } else { 3 * j / 2 })))
    } else { (a, b) };
    let (a2, b2) = (Point2D { x: a[0], y: a[1] }, Point2D { x: b[0], y: b[1] });
    let (rx, ry) = (b[0] - a[0], b[1] - a[1]);
    let ang = a2.rad_to(&b2).0;
    if rx != 0.0 || ry != 0.0 {
        ensure!(ang >= -3.1415926535897936 && ang <= 3.1415926535897936, "angle-2d", "angle {:?}", ang);
        let l = rx.hypot(ry);
        ensure!((ang.cos() - rx / l).abs() < 1e-12 && (ang.sin() - ry / l).abs() < 1e-12, "angle-2d", "angle from {:?} to {:?} is {:?}", a2, b2, ang);
        ctx.count("angles 2d", 1);
    }
    let g = p(a).rad_to(&p(b));
    if a == [0.0; 3] || b == [0.0; 3] { ensure!(g.is_err(), "angle-3d", "angle of {:?} and {:?} is {:?}", a, b, g); ctx.count("angles refused", 1); }
    else if len(a) > 1e-100 && len(b) > 1e-100 {
        let w = (dot(a, b) / len(a) / len(b)).max(-1.0).min(1.0);
        match g { Ok(x) => ensure!(x.0 >= 0.0 && x.0 <= 3.1415926535897936 && (x.0.cos() - w).abs() < 1e-12, "angle-3d", "angle of {:?} and {:?} is {:?}, cosine should be {:?}", a, b, x, w), Err(e) => return fail("angle-3d", format!("no angle of {:?} and {:?}: {:?}", a, b, e)) }
        ctx.count("angles 3d", 1);
    }
    Ok(())
}
fn c28(ctx: &mut Ctx) -> R {
    match ctx.rng.below(8) { 0 => planes(ctx)?, 1 | 2 | 3 => boxes(ctx)?, _ => triangle(ctx)? }
    ctx.nontrivial = true;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C23", rule: "collision reported exactly if the projections overlap in all directions of the sides of both bodies",
            quick: 4_000_000, thorough: 40_000_000, run: c23, probes: &[], must_see: &["touching exactly", "almost touching", "colliding", "apart", "sharing a position", "pairs box/box aligned", "pairs aligned/turned", "pairs aligned/face", "pairs turned/turned", "pairs turned/face", "pairs face/face",
                "compounds colliding", "compounds apart", "containers colliding", "containers apart", "faces accepted", "faces refused"], level: "exploration",
            assumptions: &["bodies that touch within 1e-8 of their magnitude (other than along the axes, where touching is exact) and triangles thinner than 1e-5 are not judged"] },
        Prop { id: "C28", rule: "hits, entries, projections, normals and angles equal an independent geometric evaluation",
            quick: 9_000_000, thorough: 80_000_000, run: c28, probes: &[], must_see: &["triangles hit", "triangles missed", "meshes", "boxes hit", "boxes missed", "several boxes hit", "closest searches", "projections", "angles 2d", "angles 3d", "angles refused", "normals", "normals of faces without area"], level: "exploration",
            assumptions: &["rays within rounding of an edge, a corner or a face's plane are not judged"] },
    ]
}
