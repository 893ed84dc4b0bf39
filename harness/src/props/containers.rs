//! C21 equality, hashing and deduplication; C25 containers and position access; C26 compact storage.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::props::spatial::pos;
use rust_3d::{
    center_2d, center_3d, dimension_compare, dimension_dist, dist_2d, dist_3d, dist_nd, sqr_dist_2d, sqr_dist_3d, sqr_dist_nd, BoundingBox2D, BoundingBox3D, Box2D, Box3D, Circle, CompressedPointCloud3D, Deg, EId, FId, Face3, heal_mesh,
    FilterBox2D, FilterBox3D, FilterCircle, FilterSphere, HasBoundingBox3DMaybe, HasCenterOfGravity2D, HasCenterOfGravity3D, HasDistanceTo, HasLength, Is2D, Is3D, IsBuildable2D, IsBuildable3D, IsBuildableND, IsDataContainer, IsEditable2D,
    IsEditable3D, IsEditableND, IsEditablePolygon, IsFaceEditableMesh, IsMergeable, IsND, IsNormalized2D, IsNormalized3D, IsPlane3D, IsPolygon, IsMovable3D, IsPushable, IsRandomAccessible, IsRandomInsertible, IsSortable2D,
    IsSortable3D, IsSortableND, IsTopologyUnit, IsVertexEditableMesh, IsViewBuildable, Line2D, Line3D, LineSegment2D, LineSegment3D, Mesh3D, NonNegative, Norm2D, Norm3D, Plane3D, Point2D, Point3D, PointCloud2D, PointCloud3D,
    PointCloud3Df32, Polygon2D, Polygon3D, Positive, Rad, Ray2D, Ray3D, Rgb, SId, SearchableMesh, Sphere, VId, View,
};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::Index;

type V = Vec<f64>;

// ================================================================== C21
#[derive(Default)]
struct Fnv(u64, Vec<u8>);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { hash64(&self.1) ^ self.0 }
    fn write(&mut self, b: &[u8]) { self.1.extend_from_slice(b); }
}
fn hashes<T: Hash>(x: &T) -> (u64, u64) {
    let mut a = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut a);
    let mut b = Fnv::default();
    x.hash(&mut b);
    (a.finish(), b.finish())
}
fn canon(v: &[f64]) -> Vec<u64> { v.iter().map(|x| (x + 0.0).to_bits()).collect() }
fn eqv(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y) }

/// values are made from component lists; read() gives the components they really have
fn pool<T>(ctx: &mut Ctx, n: usize, make: &impl Fn(&[f64]) -> Option<T>, read: &impl Fn(&T) -> V) -> Vec<T> {
    let d = *ctx.rng.pick(&[Dist::Grid, Dist::Grid, Dist::Dyadic, Dist::Uniform, Dist::Wide]);
    let k = 2 + ctx.rng.below(8);
    let mut vals: Vec<T> = vec![];
    for _ in 0..k {
        let mut c: V = if !vals.is_empty() && ctx.rng.chance(1, 2) {
            let mut c = read(&vals[ctx.rng.below(vals.len())]);
            // same value with the other zeros, or one component changed
            for x in c.iter_mut() { if *x == 0.0 && ctx.rng.bool() { *x = -*x; } }
            if ctx.rng.chance(1, 3) && !c.is_empty() { let i = ctx.rng.below(c.len()); c[i] = coord(&mut ctx.rng, d); }
            // differs in one high or low bit only
            if ctx.rng.chance(1, 4) && !c.is_empty() {
                let i = ctx.rng.below(c.len());
                if ctx.rng.bool() { c[i] = c[i].abs() + *ctx.rng.pick(&[256.0, 65536.0, 2147483648.0, 4294967296.0, 281474976710656.0]); ctx.count("differing in a high bit", 1); }
                else if c[i].is_finite() { c[i] = f64::from_bits(c[i].to_bits() ^ 1 << ctx.rng.below(52)); ctx.count("differing in one bit of the mantissa", 1); }
            }
            if c.len() != n { continue; }
            c
        } else { (0..n).map(|_| coord(&mut ctx.rng, d)).collect() };
        if ctx.rng.chance(1, 4) { let i = ctx.rng.below(n.max(1)); if n > 0 { c[i] = if ctx.rng.bool() { -0.0 } else { 0.0 }; } }
        if ctx.rng.chance(1, 60) && n > 0 { let i = ctx.rng.below(n); c[i] = *ctx.rng.pick(&[f64::INFINITY, f64::MAX, 5e-324, -5e-324, f64::MIN_POSITIVE]); }
        for x in &c { ctx.fpf(*x); }
        if let Some(v) = make(&c) { vals.push(v); }
    }
    vals
}
fn values<T: Eq + Hash + Clone + Debug>(ctx: &mut Ctx, what: &str, n: usize, make: impl Fn(&[f64]) -> Option<T>, read: impl Fn(&T) -> V) -> R {
    let vals = pool(ctx, n, &make, &read);
    let comps: Vec<V> = vals.iter().map(|v| read(v)).collect();
    for i in 0..vals.len() {
        let cl = vals[i].clone();
        ensure!(cl == vals[i] && hashes(&cl) == hashes(&vals[i]), "clone", "{}: clone of {:?} differs", what, vals[i]);
        ctx.count("values", 1);
        for j in 0..vals.len() {
            let same = eqv(&comps[i], &comps[j]);
            ensure!((vals[i] == vals[j]) == same && (vals[i] != vals[j]) != same, "eq", "{}: {:?} == {:?} gives {}", what, vals[i], vals[j], vals[i] == vals[j]);
            if same {
                ensure!(hashes(&vals[i]) == hashes(&vals[j]), "hash", "{}: {:?} and {:?} are equal, but their hashes differ", what, vals[i], vals[j]);
                if i != j {
                    ctx.count("equal pairs", 1);
                    if canon(&comps[i]).iter().zip(&comps[j]).any(|(a, b)| *a != b.to_bits()) || comps[i].iter().zip(&comps[j]).any(|(a, b)| a.to_bits() != b.to_bits()) { ctx.count("equal pairs with different zeros", 1); }
                }
            } else { ctx.count("different pairs", 1); }
        }
    }
    // as keys
    let mut set = HashSet::new();
    let mut first: HashMap<Vec<u64>, usize> = HashMap::new();
    for (i, v) in vals.iter().enumerate() {
        let key = canon(&comps[i]);
        let fresh = !first.contains_key(&key);
        ensure!(set.insert(v.clone()) == fresh, "set", "{}: inserting {:?} into a hash set, new: {}", what, v, !fresh);
        first.entry(key).or_insert(i);
    }
    for v in &vals { ensure!(set.contains(v), "set", "{}: {:?} is lost in a hash set", what, v); }
    Ok(())
}
// ------------------------------------------------------------------ C29
/// comparison operators agree with each other and with equality (also for types which are only partially ordered)
fn compared<T: PartialOrd + Debug>(ctx: &mut Ctx, what: &str, vals: &[T], comps: &[V]) -> R {
    use std::cmp::Ordering::*;
    for i in 0..vals.len() { for j in 0..vals.len() {
        let (a, b) = (&vals[i], &vals[j]);
        let o = match a.partial_cmp(b) { None => return fail("order-none", format!("{}: {:?} and {:?} can't be compared", what, a, b)), Some(o) => o };
        ensure!((o == Equal) == eqv(&comps[i], &comps[j]) && (o == Equal) == (a == b), "order-equal", "{}: comparing {:?} and {:?} gives {:?}, == gives {}", what, a, b, o, a == b);
        ensure!(b.partial_cmp(a) == Some(o.reverse()), "order-reverse", "{}: {:?} against {:?} gives {:?}, the other way round {:?}", what, a, b, o, b.partial_cmp(a));
        ensure!((a < b) == (o == Less) && (a <= b) == (o != Greater) && (a > b) == (o == Greater) && (a >= b) == (o != Less), "order-operators", "{}: the operators disagree on {:?} and {:?}", what, a, b);
        ctx.count(match o { Equal => "equal pairs", _ => "ordered pairs" }, 1);
    } }
    for i in 0..vals.len() { for j in 0..vals.len() { if vals[i] < vals[j] { for k in 0..vals.len() {
        if vals[j] < vals[k] { ensure!(vals[i] < vals[k], "order-transitive", "{}: {:?} < {:?} < {:?}, but the first is not below the last", what, vals[i], vals[j], vals[k]); ctx.count("chains", 1); }
    } } } }
    Ok(())
}
fn ordered<T: Ord + Clone + Debug>(ctx: &mut Ctx, what: &str, n: usize, make: impl Fn(&[f64]) -> Option<T>, read: impl Fn(&T) -> V) -> R {
    let mut vals = pool(ctx, n, &make, &read);
    // values which have much in common: swapped and negated components
    for _ in 0..ctx.rng.below(5) {
        if vals.is_empty() { break; }
        let mut c = read(&vals[ctx.rng.below(vals.len())]);
        if c.len() != n || n == 0 { break; }
        let (i, j) = (ctx.rng.below(n), ctx.rng.below(n));
        if ctx.rng.bool() { c.swap(i, j); } else { c[i] = -c[i]; }
        if let Some(v) = make(&c) { vals.push(v); }
    }
    let comps: Vec<V> = vals.iter().map(|v| read(v)).collect();
    compared(ctx, what, &vals, &comps)?;
    for a in &vals { for b in &vals {
        let o = a.cmp(b);
        ensure!(a.partial_cmp(b) == Some(o), "order-partial", "{}: cmp of {:?} and {:?} gives {:?}, partial_cmp {:?}", what, a, b, o, a.partial_cmp(b));
        ensure!(b.cmp(a) == o.reverse(), "order-reverse", "{}: cmp of {:?} and {:?} gives {:?}, the other way round {:?}", what, a, b, o, b.cmp(a));
        let (lo, hi) = (a.clone().min(b.clone()), a.clone().max(b.clone()));
        ensure!(lo <= hi && ((lo == *a && hi == *b) || (lo == *b && hi == *a)), "order-minmax", "{}: min and max of {:?} and {:?} are {:?} and {:?}", what, a, b, lo, hi);
    } }
    // ordered sets, sorting, searching
    let distinct: HashSet<Vec<u64>> = comps.iter().map(|c| canon(c)).collect();
    let set: std::collections::BTreeSet<T> = vals.iter().cloned().collect();
    ensure!(set.len() == distinct.len(), "order-set", "{}: an ordered set of {} values keeps {} of {} different ones", what, vals.len(), set.len(), distinct.len());
    let mut sorted = vals.clone();
    sorted.sort();
    for w in sorted.windows(2) { ensure!(w[0] <= w[1], "order-sort", "{}: sorted {:?} before {:?}", what, w[0], w[1]); }
    for v in &vals {
        ensure!(set.contains(v), "order-set", "{}: {:?} is lost in an ordered set", what, v);
        ensure!(sorted.binary_search(v).is_ok(), "order-search", "{}: {:?} is not found among the sorted values", what, v);
    }
    if n == 1 { for (a, x) in vals.iter().zip(&comps) { for (b, y) in vals.iter().zip(&comps) { ensure!(a.partial_cmp(b) == x[0].partial_cmp(&y[0]), "order-number", "{}: {:?} against {:?} is {:?}", what, a, b, a.partial_cmp(b)); } } }
    sorted.dedup();
    ensure!(sorted.len() == distinct.len(), "order-dedup", "{}: {} of {} values left after sorting and deduplication", what, sorted.len(), distinct.len());
    Ok(())
}
/// types without a total order
fn partially<T: PartialOrd + Clone + Debug>(ctx: &mut Ctx, what: &str, n: usize, make: impl Fn(&[f64]) -> Option<T>, read: impl Fn(&T) -> V) -> R {
    let vals = pool(ctx, n, &make, &read);
    let comps: Vec<V> = vals.iter().map(|v| read(v)).collect();
    compared(ctx, what, &vals, &comps)?;
    // numbers compare like numbers
    if n == 1 { for (a, x) in vals.iter().zip(&comps) { for (b, y) in vals.iter().zip(&comps) { ensure!(a.partial_cmp(b) == x[0].partial_cmp(&y[0]), "order-number", "{}: {:?} against {:?} is {:?}", what, a, b, a.partial_cmp(b)); } } }
    Ok(())
}

fn p2(v: &[f64]) -> Point2D { Point2D { x: v[0], y: v[1] } }
fn p3(v: &[f64]) -> Point3D { Point3D { x: v[0], y: v[1], z: v[2] } }
fn v2<P: Is2D>(p: &P) -> V { vec![p.x(), p.y()] }
fn v3<P: Is3D>(p: &P) -> V { vec![p.x(), p.y(), p.z()] }
fn cat(v: &[V]) -> V { v.concat() }
fn positive(x: f64) -> Option<Positive> { Positive::new(x) }
fn v2s<P: Is2D>(v: &[P]) -> V { v.iter().flat_map(|p| v2(p)).collect() }
fn v3s<P: Is3D>(v: &[P]) -> V { v.iter().flat_map(|p| v3(p)).collect() }

fn c21(ctx: &mut Ctx) -> R {
    let kind = ctx.rng.below(30);
    if ctx.want_desc { ctx.desc = format!("kind {}", kind); }
    ctx.fpu(kind as u64);
    let k = ctx.rng.below(5);
    let c2 = move |v: &[f64]| -> Vec<Point2D> { v.chunks(2).map(p2).collect() };
    let c3 = move |v: &[f64]| -> Vec<Point3D> { v.chunks(3).map(p3).collect() };
    match kind {
        0 => values(ctx, "Point2D", 2, |v| Some(p2(v)), |p| v2(p))?,
        1 | 2 => values(ctx, "Point3D", 3, |v| Some(p3(v)), |p| v3(p))?,
        3 => values(ctx, "Norm2D", 2, |v| Norm2D::new(p2(v)).ok(), |p| v2(p))?,
        4 => values(ctx, "Norm3D", 3, |v| Norm3D::new(p3(v)).ok(), |p| v3(p))?,
        5 => values(ctx, "Positive", 1, |v| positive(v[0]), |p| vec![**p])?,
        6 => values(ctx, "NonNegative", 1, |v| NonNegative::new(v[0]), |p| vec![**p])?,
        7 => values(ctx, "Box2D", 4, |v| Some(Box2D { center: p2(v), size_x: positive(v[2])?, size_y: positive(v[3])? }), |b| cat(&[v2(b), vec![*b.size_x, *b.size_y]]))?,
        8 => values(ctx, "Box3D", 6, |v| Some(Box3D { center: p3(v), size_x: positive(v[3])?, size_y: positive(v[4])?, size_z: positive(v[5])? }), |b| cat(&[v3(b), vec![*b.size_x, *b.size_y, *b.size_z]]))?,
        9 => values(ctx, "Circle", 3, |v| Some(Circle { center: p2(v), radius: positive(v[2])? }), |c| cat(&[v2(c), vec![*c.radius]]))?,
        10 => values(ctx, "Sphere", 4, |v| Some(Sphere { center: p3(v), radius: positive(v[3])? }), |c| cat(&[v3(c), vec![*c.radius]]))?,
        11 => values(ctx, "BoundingBox2D", 4, |v| BoundingBox2D::new(&p2(v), &p2(&v[2..])).ok(), |b| cat(&[v2(&b.min_p()), v2(&b.max_p())]))?,
        12 => values(ctx, "BoundingBox3D", 6, |v| BoundingBox3D::new(&p3(v), &p3(&v[3..])).ok(), |b| cat(&[v3(&b.min_p()), v3(&b.max_p())]))?,
        13 => values(ctx, "Line2D", 4, |v| Some(Line2D::new(p2(v), Norm2D::new(p2(&v[2..])).ok()?)), |l| cat(&[v2(&l.anchor), v2(&l.dir)]))?,
        14 => values(ctx, "Line3D", 6, |v| Some(Line3D::new(p3(v), Norm3D::new(p3(&v[3..])).ok()?)), |l| cat(&[v3(&l.anchor), v3(&l.dir)]))?,
        15 => values(ctx, "Ray2D", 4, |v| Some(Ray2D::new(Line2D::new(p2(v), Norm2D::new(p2(&v[2..])).ok()?))), |l| cat(&[v2(&l.line.anchor), v2(&l.line.dir)]))?,
        16 => values(ctx, "Ray3D", 6, |v| Some(Ray3D::new(Line3D::new(p3(v), Norm3D::new(p3(&v[3..])).ok()?))), |l| cat(&[v3(&l.line.anchor), v3(&l.line.dir)]))?,
        17 => values(ctx, "LineSegment2D", 4, |v| Some(LineSegment2D::new(p2(v), p2(&v[2..]))), |l| cat(&[v2(&l.start), v2(&l.end)]))?,
        18 => values(ctx, "LineSegment3D", 6, |v| Some(LineSegment3D::new(p3(v), p3(&v[3..]))), |l| cat(&[v3(&l.start), v3(&l.end)]))?,
        19 => values(ctx, "Plane3D", 9, |v| Some(Plane3D::new(p3(v), Norm3D::new(p3(&v[3..])).ok()?, Norm3D::new(p3(&v[6..])).ok()?)), |l: &Plane3D<Point3D, Norm3D>| cat(&[v3(&l.origin), v3(&l.u), v3(&l.v)]))?,
        20 => values(ctx, "PointCloud2D", 2 * k, |v| Some(PointCloud2D { data: c2(v) }), |c| v2s(&c.data))?,
        21 => values(ctx, "PointCloud3D", 3 * k, |v| Some(PointCloud3D { data: c3(v) }), |c| v3s(&c.data))?,
        22 => values(ctx, "Polygon2D", 2 * k, |v| Some(Polygon2D::from(PointCloud2D { data: c2(v) })), move |c| (0..k).flat_map(|i| v2(&c.vertex(VId(i)).unwrap())).collect())?,
        23 => values(ctx, "Polygon3D", 3 * k, |v| Some(Polygon3D::from(PointCloud3D { data: c3(v) })), move |c| (0..k).flat_map(|i| v3(&c.vertex(VId(i)).unwrap())).collect())?,
        24 => values(ctx, "Mesh3D", 12, |v| {
            let mut m: Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>> = Mesh3D::default();
            for p in c3(&v[..9]) { m.add_vertex(p); }
            // the last components choose the faces
            let f = [[0, 1, 2], [1, 2, 0], [2, 1, 0]][(v[9].abs() as usize) % 3];
            if v[10] >= 0.0 { m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).unwrap(); }
            Some(m)
        }, |m| {
            use rust_3d::IsMesh;
            let mut c: V = (0..3).flat_map(|i| v3(&m.vertex(VId(i)).unwrap())).collect();
            for i in 0..m.num_faces() { let f = m.face_vertex_ids(FId(i)).unwrap(); c.extend(&[f.a.0 as f64, f.b.0 as f64, f.c.0 as f64]); }
            c
        })?,
        25 => values(ctx, "Face3", 3, |v| Some(Face3::new(VId(v[0].abs() as usize), VId(v[1].abs() as usize), VId(v[2].abs() as usize))), |f| vec![f.a.0 as f64, f.b.0 as f64, f.c.0 as f64])?,
        26 => {
            values(ctx, "VId", 1, |v| Some(VId(v[0].abs() as usize)), |i| vec![i.0 as f64])?;
            values(ctx, "FId", 1, |v| Some(FId(v[0].abs() as usize)), |i| vec![i.0 as f64])?;
            values(ctx, "EId", 1, |v| Some(EId(v[0].abs() as usize)), |i| vec![i.0 as f64])?;
            values(ctx, "SId", 1, |v| Some(SId(v[0].abs() as usize)), |i| vec![i.0 as f64])?;
            values(ctx, "Rgb", 3, |v| Some(Rgb::new(v[0].abs() as u8, v[1].abs() as u8, v[2].abs() as u8)), |c| vec![c.r as f64, c.g as f64, c.b as f64])?;
        }
        27 => values(ctx, "Point3D", 3, |v| Some(p3(v)), |p| v3(p))?,
        28 => {
            // box filters and circle filters, compared through what they were made from
            let d = Dist::Grid;
            for _ in 0..8 {
                let mk = |ctx: &mut Ctx| -> V { let mut v: V = (0..3).map(|_| coord(&mut ctx.rng, d)).collect(); v.extend((0..3).map(|_| 1.0 + ctx.rng.below(3) as f64)); v };
                let a = mk(ctx);
                let mut b = if ctx.rng.bool() { a.clone() } else { mk(ctx) };
                for x in b.iter_mut() { if *x == 0.0 { *x = -*x; } }
                let f3 = |v: &V| FilterBox3D::new(Box3D { center: p3(v), size_x: pos(v[3]), size_y: pos(v[4]), size_z: pos(v[5]) });
                let f2 = |v: &V| FilterBox2D::new(Box2D { center: p2(v), size_x: pos(v[3]), size_y: pos(v[4]) });
                let fc = |v: &V| FilterCircle::new(Circle { center: p2(v), radius: pos(v[3]) });
                let fs = |v: &V| FilterSphere::new(Sphere { center: p3(v), radius: pos(v[3]) });
                let s3 = eqv(&a, &b);
                let s2 = eqv(&a[..2], &b[..2]) && eqv(&a[3..5], &b[3..5]);
                let sc = eqv(&a[..2], &b[..2]) && a[3] == b[3];
                let ss = eqv(&a[..4], &b[..4]);
                for (n, same, e, h) in [
                    ("FilterBox3D", s3, f3(&a) == f3(&b), hashes(&f3(&a)) == hashes(&f3(&b))), ("FilterBox2D", s2, f2(&a) == f2(&b), hashes(&f2(&a)) == hashes(&f2(&b))),
                    ("FilterCircle", sc, fc(&a) == fc(&b), hashes(&fc(&a)) == hashes(&fc(&b))), ("FilterSphere", ss, fs(&a) == fs(&b), hashes(&fs(&a)) == hashes(&fs(&b))),
                ] {
                    ensure!(e == same, "eq", "{} of {:?} and {:?}: equal {}", n, a, b, e);
                    ensure!(!same || h, "hash", "{} of {:?} and {:?} are equal, their hashes differ", n, a, b);
                    ctx.count(if same { "equal pairs" } else { "different pairs" }, 1);
                }
                ctx.fpf(a[0]); ctx.fpf(b[1]);
            }
        }
        _ => {
            // deduplication of long sequences
            let huge = !ctx.tiny && ctx.rng.chance(1, 300);
            let n = if huge { ctx.count("deduplications beyond u16", 1); 66_000 + ctx.rng.below(70_000) } else { size(ctx, 3000) };
            let m = if huge { n } else { 1 + ctx.rng.below(n + 1) };
            let dist = if huge || ctx.rng.chance(1, 4) { Dist::Uniform } else { Dist::Grid };
            let pool: Vec<Point3D> = (0..m).map(|_| pt3(&mut ctx.rng, dist)).collect();
            let seq: Vec<Point3D> = (0..n).map(|_| { let mut p = pool[ctx.rng.below(m)].clone(); if p.x == 0.0 && ctx.rng.bool() { p.x = -p.x; } p }).collect();
            fp3(ctx, &seq);
            let mut mesh: Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>> = Mesh3D::default();
            for p in &seq { mesh.add_vertex(p.clone()); }
            for t in 0..n / 3 { mesh.try_add_connection(VId(3 * t), VId(3 * t + 1), VId(3 * t + 2)).unwrap(); }
            let used = &seq[..n / 3 * 3];
            let healed = match heal_mesh(&mesh) { Ok(h) => h, Err(e) => return fail("dedupe", format!("healing failed: {:?}", e)) };
            use rust_3d::IsMesh;
            let u: Vec<Point3D> = (0..healed.num_vertices()).map(|i| healed.vertex(VId(i)).unwrap()).collect();
            let want: HashSet<Vec<u64>> = used.iter().map(|p| canon(&v3(p))).collect();
            let got: HashSet<Vec<u64>> = u.iter().map(|p| canon(&v3(p))).collect();
            ensure!(got == want, "dedupe", "healing {} vertices at {} positions leaves {} positions", used.len(), want.len(), got.len());
            ensure!(u.len() == want.len(), "dedupe", "healing leaves {} vertices for {} positions", u.len(), want.len());
            // the faces that are left join the same positions as before
            let at = |t: &[Point3D]| -> Vec<Vec<u64>> { t.iter().map(|p| canon(&v3(p))).collect() };
            let old: HashSet<Vec<Vec<u64>>> = used.chunks(3).map(|t| { let mut f = at(t); f.sort(); f }).collect();
            for i in 0..healed.num_faces() {
                let f = healed.face_vertex_ids(FId(i)).unwrap();
                let mut k = at(&[u[f.a.0].clone(), u[f.b.0].clone(), u[f.c.0].clone()]);
                k.sort();
                ensure!(old.contains(&k), "dedupe-face", "healing {} vertices makes up face {:?}", used.len(), k);
            }
            ctx.count("deduplications", 1);
        }
    }
    ctx.nontrivial = true;
    Ok(())
}
fn order_probe() -> R {
    let (a, b) = (Point3D::new(1.0, 0.0, 0.0), Point3D::new(0.0, 1.0, 0.0));
    ensure!(a.cmp(&b) != std::cmp::Ordering::Equal, "order-equal", "different points at the same distance to the origin compare as equal");
    let n: std::collections::BTreeSet<Norm3D> = vec![Norm3D::norm_x(), Norm3D::norm_y(), Norm3D::norm_z()].into_iter().collect();
    ensure!(n.len() == 3, "order-set", "an ordered set keeps {} of 3 directions", n.len());
    let s = |r: f64| Sphere { center: Point3D::new(1.0, 2.0, 3.0), radius: pos(r) };
    ensure!(s(1.0).cmp(&s(2.0)) == std::cmp::Ordering::Less, "order-partial", "spheres of different radius compare as {:?}", s(1.0).cmp(&s(2.0)));
    Ok(())
}
/// comparisons of all value types
fn c29(ctx: &mut Ctx) -> R {
    let kind = ctx.rng.below(29);
    if ctx.want_desc { ctx.desc = format!("kind {}", kind); }
    ctx.fpu(kind as u64);
    let k = ctx.rng.below(5);
    let c2 = move |v: &[f64]| -> Vec<Point2D> { v.chunks(2).map(p2).collect() };
    let c3 = move |v: &[f64]| -> Vec<Point3D> { v.chunks(3).map(p3).collect() };
    match kind {
        0 => ordered(ctx, "Point2D", 2, |v| Some(p2(v)), |p| v2(p))?,
        1 | 2 => ordered(ctx, "Point3D", 3, |v| Some(p3(v)), |p| v3(p))?,
        3 => ordered(ctx, "Norm2D", 2, |v| Norm2D::new(p2(v)).ok(), |p| v2(p))?,
        4 => ordered(ctx, "Norm3D", 3, |v| Norm3D::new(p3(v)).ok(), |p| v3(p))?,
        5 => partially(ctx, "Positive", 1, |v| positive(v[0]), |p| vec![**p])?,
        6 => partially(ctx, "NonNegative", 1, |v| NonNegative::new(v[0]), |p| vec![**p])?,
        7 => ordered(ctx, "Box2D", 4, |v| Some(Box2D { center: p2(v), size_x: positive(v[2])?, size_y: positive(v[3])? }), |b| cat(&[v2(b), vec![*b.size_x, *b.size_y]]))?,
        8 => ordered(ctx, "Box3D", 6, |v| Some(Box3D { center: p3(v), size_x: positive(v[3])?, size_y: positive(v[4])?, size_z: positive(v[5])? }), |b| cat(&[v3(b), vec![*b.size_x, *b.size_y, *b.size_z]]))?,
        9 => ordered(ctx, "Circle", 3, |v| Some(Circle { center: p2(v), radius: positive(v[2])? }), |c| cat(&[v2(c), vec![*c.radius]]))?,
        10 => ordered(ctx, "Sphere", 4, |v| Some(Sphere { center: p3(v), radius: positive(v[3])? }), |c| cat(&[v3(c), vec![*c.radius]]))?,
        11 => ordered(ctx, "BoundingBox2D", 4, |v| BoundingBox2D::new(&p2(v), &p2(&v[2..])).ok(), |b| cat(&[v2(&b.min_p()), v2(&b.max_p())]))?,
        12 => ordered(ctx, "BoundingBox3D", 6, |v| BoundingBox3D::new(&p3(v), &p3(&v[3..])).ok(), |b| cat(&[v3(&b.min_p()), v3(&b.max_p())]))?,
        13 => ordered(ctx, "Line2D", 4, |v| Some(Line2D::new(p2(v), Norm2D::new(p2(&v[2..])).ok()?)), |l| cat(&[v2(&l.anchor), v2(&l.dir)]))?,
        14 => ordered(ctx, "Line3D", 6, |v| Some(Line3D::new(p3(v), Norm3D::new(p3(&v[3..])).ok()?)), |l| cat(&[v3(&l.anchor), v3(&l.dir)]))?,
        15 => ordered(ctx, "Ray2D", 4, |v| Some(Ray2D::new(Line2D::new(p2(v), Norm2D::new(p2(&v[2..])).ok()?))), |l| cat(&[v2(&l.line.anchor), v2(&l.line.dir)]))?,
        16 => ordered(ctx, "Ray3D", 6, |v| Some(Ray3D::new(Line3D::new(p3(v), Norm3D::new(p3(&v[3..])).ok()?))), |l| cat(&[v3(&l.line.anchor), v3(&l.line.dir)]))?,
        17 => partially(ctx, "LineSegment2D", 4, |v| Some(LineSegment2D::new(p2(v), p2(&v[2..]))), |l| cat(&[v2(&l.start), v2(&l.end)]))?,
        18 => partially(ctx, "LineSegment3D", 6, |v| Some(LineSegment3D::new(p3(v), p3(&v[3..]))), |l| cat(&[v3(&l.start), v3(&l.end)]))?,
        19 => ordered(ctx, "Plane3D", 9, |v| Some(Plane3D::new(p3(v), Norm3D::new(p3(&v[3..])).ok()?, Norm3D::new(p3(&v[6..])).ok()?)), |l: &Plane3D<Point3D, Norm3D>| cat(&[v3(&l.origin), v3(&l.u), v3(&l.v)]))?,
        20 => ordered(ctx, "PointCloud2D", 2 * k, |v| Some(PointCloud2D { data: c2(v) }), |c| v2s(&c.data))?,
        21 => ordered(ctx, "PointCloud3D", 3 * k, |v| Some(PointCloud3D { data: c3(v) }), |c| v3s(&c.data))?,
        22 => ordered(ctx, "Polygon2D", 2 * k, |v| Some(Polygon2D::from(PointCloud2D { data: c2(v) })), move |c| (0..k).flat_map(|i| v2(&c.vertex(VId(i)).unwrap())).collect())?,
        23 => ordered(ctx, "Polygon3D", 3 * k, |v| Some(Polygon3D::from(PointCloud3D { data: c3(v) })), move |c| (0..k).flat_map(|i| v3(&c.vertex(VId(i)).unwrap())).collect())?,
        24 => ordered(ctx, "Mesh3D", 12, |v| {
            let mut m: Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>> = Mesh3D::default();
            for p in c3(&v[..9]) { m.add_vertex(p); }
            // the last components choose the faces
            let f = [[0, 1, 2], [1, 2, 0], [2, 1, 0]][(v[9].abs() as usize) % 3];
            if v[10] >= 0.0 { m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).unwrap(); }
            Some(m)
        }, |m| {
            use rust_3d::IsMesh;
            let mut c: V = (0..3).flat_map(|i| v3(&m.vertex(VId(i)).unwrap())).collect();
            for i in 0..m.num_faces() { let f = m.face_vertex_ids(FId(i)).unwrap(); c.extend(&[f.a.0 as f64, f.b.0 as f64, f.c.0 as f64]); }
            c
        })?,
        25 => ordered(ctx, "Face3", 3, |v| Some(Face3::new(VId(v[0].abs() as usize), VId(v[1].abs() as usize), VId(v[2].abs() as usize))), |f| vec![f.a.0 as f64, f.b.0 as f64, f.c.0 as f64])?,
        26 => {
            ordered(ctx, "VId", 1, |v| Some(VId(v[0].abs() as usize)), |i| vec![i.0 as f64])?;
            ordered(ctx, "FId", 1, |v| Some(FId(v[0].abs() as usize)), |i| vec![i.0 as f64])?;
            ordered(ctx, "EId", 1, |v| Some(EId(v[0].abs() as usize)), |i| vec![i.0 as f64])?;
            ordered(ctx, "SId", 1, |v| Some(SId(v[0].abs() as usize)), |i| vec![i.0 as f64])?;
            partially(ctx, "Rad", 1, |v| Some(Rad(v[0])), |r| vec![r.0])?;
            ordered(ctx, "Rgb", 3, |v| Some(Rgb::new(v[0].abs() as u8, v[1].abs() as u8, v[2].abs() as u8)), |c| vec![c.r as f64, c.g as f64, c.b as f64])?;
        }
        27 => ordered(ctx, "Point3D", 3, |v| Some(p3(v)), |p| v3(p))?,
        _ => {
            // filters only show what they were made from through their bounding boxes
            let (c, r): (V, f64) = ((0..3).map(|_| coord(&mut ctx.rng, Dist::Grid)).collect(), 1.0 + ctx.rng.below(3) as f64);
            let mk = |v: &[f64], r: f64| (FilterBox3D::new(Box3D { center: p3(v), size_x: pos(r), size_y: pos(2.0), size_z: pos(r) }), FilterBox2D::new(Box2D { center: p2(v), size_x: pos(2.0), size_y: pos(r) }), FilterCircle::new(Circle { center: p2(v), radius: pos(r) }), FilterSphere::new(Sphere { center: p3(v), radius: pos(r) }));
            let mut cs = vec![(c.clone(), r)];
            for _ in 0..6 {
                let (mut c, mut r) = cs[ctx.rng.below(cs.len())].clone();
                let (i, j) = (ctx.rng.below(3), ctx.rng.below(3));
                match ctx.rng.below(4) { 0 => c.swap(i, j), 1 => c[i] = -c[i], 2 => r = 1.0 + ctx.rng.below(3) as f64, _ => c[i] = coord(&mut ctx.rng, Dist::Grid) }
                cs.push((c, r));
            }
            for x in &cs { ctx.fpf(x.0[0]); ctx.fpf(x.0[2]); ctx.fpf(x.1); }
            let all: Vec<_> = cs.iter().map(|(c, r)| mk(c, *r)).collect();
            let v3d: Vec<V> = cs.iter().map(|(c, r)| vec![c[0], c[1], c[2], *r]).collect();
            let v2d: Vec<V> = cs.iter().map(|(c, r)| vec![c[0], c[1], *r]).collect();
            compared(ctx, "FilterBox3D", &all.iter().map(|a| a.0.clone()).collect::<Vec<_>>(), &v3d)?;
            compared(ctx, "FilterBox2D", &all.iter().map(|a| a.1.clone()).collect::<Vec<_>>(), &v2d)?;
            compared(ctx, "FilterCircle", &all.iter().map(|a| a.2.clone()).collect::<Vec<_>>(), &v2d)?;
            compared(ctx, "FilterSphere", &all.iter().map(|a| a.3.clone()).collect::<Vec<_>>(), &v3d)?;
            for a in &all { for b in &all {
                ensure!(a.0.partial_cmp(&b.0) == Some(a.0.cmp(&b.0)) && a.1.partial_cmp(&b.1) == Some(a.1.cmp(&b.1)) && a.2.partial_cmp(&b.2) == Some(a.2.cmp(&b.2)) && a.3.partial_cmp(&b.3) == Some(a.3.cmp(&b.3)), "order-partial", "filters: cmp and partial_cmp of {:?} and {:?} disagree", a, b);
            } }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}
// ================================================================== C25
fn any(ctx: &mut Ctx) -> f64 { if ctx.rng.chance(1, 3) { any_finite(&mut ctx.rng) } else { let d = *ctx.rng.pick(&DISTS); coord_special(ctx, d) } }
fn bits(v: &[f64]) -> Vec<u64> { v.iter().map(|x| x.to_bits()).collect() }
fn is(what: &str, got: &[f64], want: &[f64]) -> R {
    ensure!(bits(got) == bits(want), "access", "{}: {:?}, should be {:?}", what, got, want);
    Ok(())
}
fn nd<T: IsND>(what: &str, p: &T, want: &[f64]) -> R {
    ensure!(T::n_dimensions() == want.len(), "dimensions", "{} has {} dimensions", what, T::n_dimensions());
    for d in 0..want.len() + 3 { ensure!(p.position_nd(d).map(|x| x.to_bits()) == want.get(d).map(|x| x.to_bits()), "access", "{}: position_nd({}) is {:?}, position {:?}", what, d, p.position_nd(d), want); }
    for d in beyond(4) { ensure!(p.position_nd(d).is_none(), "access", "{}: position_nd({})", what, d); }
    Ok(())
}
fn buildable_nd<T: IsBuildableND + IsEditableND>(ctx: &mut Ctx, what: &str, rest: &impl Fn(&T) -> V, n: usize) -> R {
    let c: V = (0..n).map(|_| any(ctx)).collect();
    let e: V = (0..n).map(|_| any(ctx)).collect();
    for l in 0..6 {
        let long: V = (0..l).map(|i| c.get(i).cloned().unwrap_or(1.0)).collect();
        match T::new_nd(&long) {
            Ok(p) => { ensure!(l == n, "new_nd", "{}: new_nd accepts {} coordinates", what, l); nd(what, &p, &c)?; }
            Err(_) => ensure!(l != n, "new_nd", "{}: new_nd refuses {} coordinates", what, l),
        }
    }
    nd(&format!("{} zero_nd", what), &T::zero_nd(), &vec![0.0; n])?;
    let mut p = T::new_nd(&c).unwrap();
    let r0 = bits(&rest(&p));
    let mut want = c.clone();
    for _ in 0..4 {
        let d = if ctx.rng.chance(1, 4) { *ctx.rng.pick(&beyond(n)) } else { ctx.rng.below(n) };
        let v = any(ctx);
        let ok = p.set_position(d, v).is_ok();
        ensure!(ok == (d < n), "set_position", "{}: set_position({}) {}", what, d, ok);
        if d < n { want[d] = v; }
        nd(&format!("{} after set_position({}, {:?})", what, d, v), &p, &want)?;
    }
    // from other types: only with the same number of dimensions
    let (a2, a3) = (Point2D { x: e[0], y: e[1] }, Point3D { x: e[0], y: e[1], z: *e.get(2).unwrap_or(&7.0) });
    for k in [2usize, 3] {
        let ok = if k == 2 { p.from_nd(a2.clone()).is_ok() } else { p.from_nd(a3.clone()).is_ok() };
        ensure!(ok == (k == n), "from_nd", "{}: from_nd of a {} dimensional position: {}", what, k, ok);
        if k == n { want = e.clone(); }
        nd(&format!("{} after from_nd", what), &p, &want)?;
    }
    ensure!(bits(&rest(&p)) == r0, "rest", "{}: setting the position changes other parts", what);
    // center and distance
    let (q, r) = (T::new_nd(&c).unwrap(), T::new_nd(&e).unwrap());
    if c.iter().chain(&e).all(|x| x.abs() < 1e150 && (*x == 0.0 || x.abs() > 1e-150)) {
        let mut buf = vec![1.0; 5];
        let m = match q.center_nd(&r, &mut buf) { Ok(m) => m, Err(_) => return fail("center_nd", format!("{}: no center", what)) };
        for d in 0..n {
            let w = 0.5 * (c[d] + e[d]);
            let g = m.position_nd(d).unwrap();
            ensure!((g - w).abs() <= 1e-15 * (c[d].abs() + e[d].abs()), "center_nd", "{}: center of {:?} and {:?} has {:?} in dimension {}", what, c, e, g, d);
        }
        let w: f64 = c.iter().zip(&e).map(|(a, b)| (a - b) * (a - b)).sum();
        let (s, l) = (sqr_dist_nd(&q, &r), dist_nd(&q, &r));
        match (s, l) {
            (Ok(s), Ok(l)) => ensure!(close2(s, w) && close2(l, w.sqrt()), "dist_nd", "{}: distance of {:?} and {:?} is {:?} / {:?}", what, c, e, s, l),
            _ => return fail("dist_nd", format!("{}: no distance", what)),
        }
    }
    let bad = if n == 2 { (q.center_nd(&a3, &mut vec![]).is_err(), dist_nd(&q, &a3).is_err(), sqr_dist_nd(&a3, &q).is_err()) } else { (q.center_nd(&a2, &mut vec![]).is_err(), dist_nd(&q, &a2).is_err(), sqr_dist_nd(&a2, &q).is_err()) };
    ensure!(bad == (true, true, true), "dimension-mix", "{}: center / distance / squared distance of positions with different dimensions refused: {:?}", what, bad);
    ctx.count("positions accessed", 1);
    Ok(())
}
fn close2(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-14 * a.abs().max(b.abs()) }

fn pos2<T: IsBuildable2D + IsEditable2D + Clone + 'static>(ctx: &mut Ctx, what: &str, rest: impl Fn(&T) -> V) -> R {
    buildable_nd::<T>(ctx, what, &rest, 2)?;
    let (x, y) = (any(ctx), any(ctx));
    let mut p = T::new(x, y);
    let r0 = bits(&rest(&p));
    is(what, &[p.x(), p.y()], &[x, y])?;
    is(what, &p.xy(), &[x, y])?;
    let (a, b) = (any(ctx), any(ctx));
    p.set_x(a);
    is(&format!("{} after set_x", what), &p.xy(), &[a, y])?;
    p.set_y(b);
    is(&format!("{} after set_y", what), &p.xy(), &[a, b])?;
    p.set_xy(y, x);
    is(&format!("{} after set_xy", what), &p.xy(), &[y, x])?;
    let q = Point2D { x: a, y: b };
    IsBuildable2D::from(&mut p, &q);
    is(&format!("{} after from", what), &p.xy(), &[a, b])?;
    is(&format!("{} new_from", what), &T::new_from(&q).xy(), &[a, b])?;
    is(&format!("{} zero", what), &T::zero().xy(), &[0.0, 0.0])?;
    ensure!(bits(&rest(&p)) == r0, "rest", "{}: setting the position changes other parts", what);
    let b2 = Box::new(p.clone());
    is(&format!("boxed {}", what), &[b2.x(), b2.y()], &[a, b])?;
    nd(&format!("boxed {}", what), &b2, &[a, b])?;
    // text
    let t = p.to_str();
    match T::parse(&t) { Ok(z) => is(&format!("{} printed and parsed ({})", what, t), &z.xy(), &[a, b])?, Err(_) => return fail("parse", format!("{}: cannot parse its own text {}", what, t)) }
    texts(ctx, what, &[x, y], |t| T::parse(t).ok().map(|p| p.xy().to_vec()))?;
    if [x, y, a, b].iter().all(|v| v.abs() < 1e150 && (*v == 0.0 || v.abs() > 1e-150)) {
        let o = T::new(x, y);
        ensure!(close2(*o.abs(), x.hypot(y)), "abs", "{}: abs of {:?} {:?} is {:?}", what, x, y, o.abs());
        let m = |u: f64, v: f64| (u.abs() + v.abs()) * 1e-15;
        ensure!((o.dot(&q) - (x * a + y * b)).abs() <= m(x * a, y * b), "dot", "{}: {:?} dot {:?}", what, (x, y), q);
        ensure!((o.cross(&q) - (x * b - y * a)).abs() <= m(x * b, y * a), "cross", "{}: {:?} cross {:?}", what, (x, y), q);
        let c = o.center(&q);
        ensure!((c.x() - 0.5 * (x + a)).abs() <= m(x, a) && (c.y() - 0.5 * (y + b)).abs() <= m(y, b), "center", "{}: center {:?}", what, c.xy());
        let d = (x - a).hypot(y - b);
        ensure!(close2(dist_2d(&o, &q), d) && close2(sqr_dist_2d(&q, &o), (x - a) * (x - a) + (y - b) * (y - b)), "distance", "{}: {:?} to {:?} is {:?}", what, (x, y), q, dist_2d(&o, &q));
        let dd: &dyn Is2D = &o;
        ensure!(close2(*HasDistanceTo::<Point2D>::distance(dd, &q), d) && close2(*HasDistanceTo::<Point2D>::sqr_distance(dd, &q), (x - a) * (x - a) + (y - b) * (y - b)), "distance", "{}: {:?} to {:?}", what, (x, y), q);
        let c = center_2d(&Point2D { x, y }, &q);
        ensure!((c.x() - 0.5 * (x + a)).abs() <= m(x, a) && (c.y() - 0.5 * (y + b)).abs() <= m(y, b), "center", "center_2d {:?}", c);
        if x != 0.0 || y != 0.0 {
            let n = match o.normalized() { Ok(n) => n, Err(_) => return fail("normalized", format!("{}: {:?}", what, (x, y))) };
            let l = x.hypot(y);
            ensure!(close2(n.x(), x / l) && close2(n.y(), y / l), "normalized", "{}: {:?} normalized is {:?}", what, (x, y), n.xy());
        } else { ensure!(o.normalized().is_err(), "normalized", "{}: zero normalized", what); }
        ctx.count("measures", 1);
    }
    Ok(())
}
fn pos3<T: IsBuildable3D + IsEditable3D + IsBuildableND + Clone + 'static>(ctx: &mut Ctx, what: &str, rest: impl Fn(&T) -> V) -> R {
    buildable_nd::<T>(ctx, what, &rest, 3)?;
    let (x, y, z) = (any(ctx), any(ctx), any(ctx));
    let mut p = T::new(x, y, z);
    let r0 = bits(&rest(&p));
    is(what, &[p.x(), p.y(), p.z()], &[x, y, z])?;
    is(what, &p.xyz(), &[x, y, z])?;
    is(what, &p.xy(), &[x, y])?;
    is(what, &p.xz(), &[x, z])?;
    is(what, &p.yz(), &[y, z])?;
    let (a, b, c) = (any(ctx), any(ctx), any(ctx));
    p.set_x(a);
    is(&format!("{} after set_x", what), &p.xyz(), &[a, y, z])?;
    p.set_y(b);
    is(&format!("{} after set_y", what), &p.xyz(), &[a, b, z])?;
    p.set_z(c);
    is(&format!("{} after set_z", what), &p.xyz(), &[a, b, c])?;
    p.set_xyz(x, y, z);
    is(&format!("{} after set_xyz", what), &p.xyz(), &[x, y, z])?;
    p.set_xy(a, b);
    is(&format!("{} after set_xy", what), &p.xyz(), &[a, b, z])?;
    p.set_xz(b, c);
    is(&format!("{} after set_xz", what), &p.xyz(), &[b, b, c])?;
    p.set_yz(x, y);
    is(&format!("{} after set_yz", what), &p.xyz(), &[b, x, y])?;
    let q = Point3D { x: a, y: b, z: c };
    IsBuildable3D::from(&mut p, &q);
    is(&format!("{} after from", what), &p.xyz(), &[a, b, c])?;
    is(&format!("{} new_from", what), &T::new_from(&q).xyz(), &[a, b, c])?;
    is(&format!("{} zero", what), &T::zero().xyz(), &[0.0, 0.0, 0.0])?;
    ensure!(bits(&rest(&p)) == r0, "rest", "{}: setting the position changes other parts", what);
    let b2 = Box::new(p.clone());
    is(&format!("boxed {}", what), &[b2.x(), b2.y(), b2.z()], &[a, b, c])?;
    nd(&format!("boxed {}", what), &b2, &[a, b, c])?;
    let t = p.to_str();
    match T::parse(&t) { Ok(r) => is(&format!("{} printed and parsed ({})", what, t), &r.xyz(), &[a, b, c])?, Err(_) => return fail("parse", format!("{}: cannot parse its own text {}", what, t)) }
    texts(ctx, what, &[x, y, z], |t| T::parse(t).ok().map(|p| p.xyz().to_vec()))?;
    if [x, y, z, a, b, c].iter().all(|v| v.abs() < 1e150 && (*v == 0.0 || v.abs() > 1e-150)) {
        let o = T::new(x, y, z);
        let l = (x * x + y * y + z * z).sqrt();
        ensure!(close2(*o.abs(), l), "abs", "{}: abs of {:?} is {:?}", what, (x, y, z), o.abs());
        ensure!((o.dot(&q) - (x * a + y * b + z * c)).abs() <= 1e-15 * ((x * a).abs() + (y * b).abs() + (z * c).abs()), "dot", "{}: {:?} dot {:?}", what, (x, y, z), q);
        let ce = o.center(&q);
        let c3 = center_3d(&Point3D { x, y, z }, &q);
        for (g, g3, u, v) in [(ce.x(), c3.x, x, a), (ce.y(), c3.y, y, b), (ce.z(), c3.z, z, c)] { ensure!((g - 0.5 * (u + v)).abs() <= 1e-15 * (u.abs() + v.abs()) && (g3 - 0.5 * (u + v)).abs() <= 1e-15 * (u.abs() + v.abs()), "center", "{}: center of {:?} and {:?} is {:?} / {:?}", what, (x, y, z), q, ce.xyz(), c3); }
        let s = (x - a) * (x - a) + (y - b) * (y - b) + (z - c) * (z - c);
        ensure!(close2(dist_3d(&o, &q), s.sqrt()) && close2(sqr_dist_3d(&q, &o), s), "distance", "{}: {:?} to {:?} is {:?}", what, (x, y, z), q, dist_3d(&o, &q));
        let dd: &dyn Is3D = &o;
        ensure!(close2(*HasDistanceTo::<Point3D>::distance(dd, &q), s.sqrt()) && close2(*HasDistanceTo::<Point3D>::sqr_distance(dd, &q), s), "distance", "{}: {:?} to {:?}", what, (x, y, z), q);
        for (d, u, v) in [(0i8, x, a), (1, y, b), (2, z, c)] {
            let (cmp, dist) = (dimension_compare(&o, &q, d), dimension_dist(&o, &q, d));
            ensure!(cmp.ok() == u.partial_cmp(&v) && dist.map(|g| g == (u - v).abs()).unwrap_or(false), "dimension", "comparing / measuring {:?} and {:?} in dimension {}", (x, y, z), q, d);
        }
        for d in [-1i8, 3, 127, -128] { ensure!(dimension_compare(&o, &q, d).is_err() && dimension_dist(&o, &q, d).is_err(), "dimension", "dimension {} is accepted", d); }
        if l > 0.0 {
            let n = match o.normalized() { Ok(n) => n, Err(_) => return fail("normalized", format!("{}: {:?}", what, (x, y, z))) };
            ensure!(close2(n.x(), x / l) && close2(n.y(), y / l) && close2(n.z(), z / l), "normalized", "{}: {:?} normalized is {:?}", what, (x, y, z), n.xyz());
        } else { ensure!(o.normalized().is_err(), "normalized", "{}: zero normalized", what); }
        ctx.count("measures", 1);
    }
    Ok(())
}
/// spellings of a position and texts that are none
fn texts(ctx: &mut Ctx, what: &str, c: &[f64], parse: impl Fn(&str) -> Option<V>) -> R {
    let blanks = |ctx: &mut Ctx, min: usize| " ".repeat(min + ctx.rng.below(3));
    let mut words: Vec<String> = c.iter().map(|x| if ctx.rng.bool() { format!("{:e}", x) } else { x.to_string() }).collect();
    let mut bad = false;
    match ctx.rng.below(6) {
        0 => { words.pop(); bad = true; }
        1 => { words.push("1".into()); bad = true; }
        2 => { let i = ctx.rng.below(words.len()); words[i] = ctx.rng.pick(&["x", "1..2", "--1", "1,0", "0x10", "1e", "-", "."]).to_string(); bad = true; }
        _ => {}
    }
    let mut t = blanks(ctx, 0);
    for (i, w) in words.iter().enumerate() { if i > 0 { t.push_str(&blanks(ctx, 1)); } t.push_str(w); }
    t.push_str(&blanks(ctx, 0));
    match parse(&t) {
        Some(p) => { ensure!(!bad, "parse", "{}: text {:?} is read as {:?}", what, t, p); is(&format!("{} from {:?}", what, t), &p, c)?; ctx.count("texts read", 1); }
        None => { ensure!(bad, "parse", "{}: text {:?} is refused", what, t); ctx.count("texts refused", 1); }
    }
    Ok(())
}

/// all numbers within a text, in order
fn numbers(t: &str) -> V { t.split(|c: char| !(c.is_ascii_digit() || "+-.eE".contains(c))).filter_map(|w| w.parse().ok()).collect() }
fn shows<T: std::fmt::Display>(x: &T, want: &[f64]) -> R {
    let t = x.to_string();
    let got = numbers(&t);
    ensure!(bits(&got) == bits(want), "shown", "shown as {:?}, but it consists of {:?}", t, want);
    Ok(())
}
/// texts made from values
fn shown(ctx: &mut Ctx) -> R {
    let (a, b): (V, V) = ((0..3).map(|_| any(ctx)).collect(), (0..3).map(|_| any(ctx)).collect());
    let (q, r) = (p2(&a), p2(&b));
    let (u, v) = (p3(&a), p3(&b));
    let ids: Vec<usize> = (0..3).map(|_| ctx.rng.below(1000)).collect();
    shows(&q, &a[..2])?;
    shows(&u, &a)?;
    shows(&LineSegment2D::new(q.clone(), r.clone()), &[a[0], a[1], b[0], b[1]])?;
    shows(&LineSegment3D::new(u.clone(), v.clone()), &cat(&[a.clone(), b.clone()]))?;
    if let Ok(n) = Norm2D::new(r.clone()) { let l = Line2D::new(q.clone(), n.clone()); shows(&l, &[a[0], a[1], n.x(), n.y()])?; shows(&Ray2D::new(l), &[a[0], a[1], n.x(), n.y()])?; }
    if let Ok(n) = Norm3D::new(v.clone()) { let l = Line3D::new(u.clone(), n.clone()); let w = cat(&[a.clone(), v3(&n)]); shows(&l, &w)?; shows(&Ray3D::new(l), &w)?; }
    if let Some(x) = Positive::new(a[0]) { shows(&x, &a[..1])?; }
    if let Some(x) = NonNegative::new(a[0]) { shows(&x, &a[..1])?; }
    let f: V = ids.iter().map(|x| *x as f64).collect();
    shows(&Face3::new(VId(ids[0]), VId(ids[1]), VId(ids[2])), &f)?;
    macro_rules! id { ($t:ident) => { let mut x = $t(ids[0]); shows(&x, &f[..1])?; *x.as_mut() += ids[1]; ensure!(*x.as_ref() == ids[0] + ids[1] && x.0 == ids[0] + ids[1], "id", "{:?}: {} written", x, ids[0] + ids[1]); let y: usize = x.into(); ensure!(y == ids[0] + ids[1], "id", "{:?} became {}", x, y); }; }
    id!(VId);
    id!(FId);
    id!(EId);
    id!(SId);
    macro_rules! angle { ($t:ident) => { let mut x = $t(a[0]); shows(&x, &a[..1])?; *x.as_mut() = b[1]; ensure!(*x.as_ref() == b[1] && x.0 == b[1], "angle", "{:?}: {} written", x, b[1]); let y: f64 = x.into(); ensure!(y == b[1], "angle", "{:?} became {}", x, y); }; }
    angle!(Deg);
    angle!(Rad);
    let n = ctx.rng.below(5);
    let ps: Vec<V> = (0..n).map(|_| (0..3).map(|_| any(ctx)).collect()).collect();
    let (mut c2, mut c3, mut g2, mut g3) = (PointCloud2D::<Point2D>::with_capacity(ctx.rng.below(9)), PointCloud3D::<Point3D>::with_capacity(ctx.rng.below(9)), Polygon2D::<Point2D>::default(), Polygon3D::<Point3D>::default());
    c2.reserve_vertices(ctx.rng.below(9));
    c3.reserve_vertices(ctx.rng.below(9));
    ensure!(c2 == PointCloud2D::default() && c3 == PointCloud3D::default(), "empty", "new clouds are not empty");
    for x in &ps { c2.push(p2(x)); c3.push(p3(x)); g2.add_vertex(p2(x)); g3.add_vertex(p3(x)); }
    let f2: V = ps.iter().flat_map(|x| x[..2].to_vec()).collect();
    shows(&c2, &f2)?;
    shows(&g2, &f2)?;
    shows(&c3, &cat(&ps))?;
    shows(&g3, &cat(&ps))?;
    ensure!(c2.to_string().lines().count() == n && c3.to_string().lines().count() == n, "shown", "{} points are shown as {:?} and {:?}", n, c2.to_string(), c3.to_string());
    ctx.count("values shown", 1);
    Ok(())
}

fn positions(ctx: &mut Ctx) -> R {
    if ctx.rng.chance(1, 6) { return shown(ctx); }
    match ctx.rng.below(8) {
        0 | 1 => pos2::<Point2D>(ctx, "Point2D", |_| vec![])?,
        2 => pos2::<Box2D>(ctx, "Box2D", |b| vec![*b.size_x, *b.size_y])?,
        3 => { pos2::<Circle>(ctx, "Circle", |c| vec![*c.radius])?; pos2::<FilterCircle>(ctx, "FilterCircle", |_| vec![])?; pos2::<FilterBox2D>(ctx, "FilterBox2D", |_| vec![])?; }
        4 | 5 => pos3::<Point3D>(ctx, "Point3D", |_| vec![])?,
        6 => { pos3::<Box3D>(ctx, "Box3D", |b| vec![*b.size_x, *b.size_y, *b.size_z])?; pos3::<FilterBox3D>(ctx, "FilterBox3D", |_| vec![])?; }
        _ => { pos3::<Sphere>(ctx, "Sphere", |c| vec![*c.radius])?; pos3::<FilterSphere>(ctx, "FilterSphere", |_| vec![])?; }
    }
    let d = *ctx.rng.pick(&DISTS);
    let (p, q) = (pt2(&mut ctx.rng, d), pt3(&mut ctx.rng, d));
    if let Ok(n) = Norm2D::new(p.clone()) { nd("Norm2D", &n, &n.xy())?; }
    if let Ok(n) = Norm3D::new(q.clone()) { nd("Norm3D", &n, &n.xyz())?; }
    // a box is at its center
    let (e, g) = (ctx.rng.f(0.01, 10.0), ctx.rng.f(0.01, 10.0));
    let (h2, h3) = (p2(&[p.x + e, p.y + g]), p3(&[q.x + e, q.y + g, q.z + e]));
    if let Ok(b) = BoundingBox2D::new(&p, &h2) {
        let c = b.center_bb();
        ensure!((c.x - (p.x + h2.x) / 2.0).abs() <= 1e-9 * (h2.x.abs() + p.x.abs()) && (c.y - (p.y + h2.y) / 2.0).abs() <= 1e-9 * (h2.y.abs() + p.y.abs()), "box-center", "{:?}: center {:?}", b, c);
        nd("BoundingBox2D", &b, &[c.x, c.y])?;
        is("BoundingBox2D", &v2(&b), &[c.x, c.y])?;
    }
    if let Ok(b) = BoundingBox3D::new(&q, &h3) {
        let c = b.center_bb();
        for d in 0..3 { let (l, h, m) = (v3(&q)[d], v3(&h3)[d], v3(&c)[d]); ensure!((m - (l + h) / 2.0).abs() <= 1e-9 * (h.abs() + l.abs()), "box-center", "{:?}: center {:?}", b, c); }
        nd("BoundingBox3D", &b, &v3(&c))?;
        is("BoundingBox3D", &v3(&b), &v3(&c))?;
    }
    let f = Face3::new(VId(3), VId(7), VId(9));
    let mut l = vec![];
    f.for_each_vid(&mut |v| l.push(v.0));
    ensure!(l == vec![3, 7, 9] && (0..5).map(|i| f.vid(i).map(|v| v.0)).collect::<Vec<_>>() == vec![Some(3), Some(7), Some(9), None, None], "face", "vertex ids of a face");
    Ok(())
}

fn same<C: IsRandomAccessible<P> + IsDataContainer<P>, P: PartialEq + Debug>(what: &str, c: &C, m: &[P]) -> R where C: Index<usize, Output = P> {
    ensure!(c.len() == m.len() && c.len_d() == m.len(), "container", "{}: length {} / {}, should be {}", what, c.len(), c.len_d(), m.len());
    for i in 0..m.len() {
        ensure!(c[i] == m[i] && c.get_d(i).map(|x| x == m[i]).unwrap_or(false), "container", "{}: element {} is {:?}, should be {:?}", what, i, c[i], m[i]);
    }
    for i in beyond(m.len()) { ensure!(c.get_d(i).is_none(), "container", "{}: get_d({}) of {} elements", what, i, m.len()); }
    Ok(())
}
fn history<C, P>(ctx: &mut Ctx, what: &str, mut c: C, mut gen: impl FnMut(&mut Ctx) -> P, steps: usize) -> Result<(C, Vec<P>), Fail>
where C: IsRandomAccessible<P> + IsRandomInsertible<P> + IsPushable<P> + IsDataContainer<P> + IsViewBuildable + Clone, P: PartialEq + Debug + Clone {
    let mut m: Vec<P> = vec![];
    for _ in 0..steps {
        let op = ctx.rng.below(9);
        ctx.fpu(op as u64);
        let n = m.len();
        match op {
            0 => { let x = gen(ctx); m.push(x.clone()); IsPushable::push(&mut c, x); }
            1 => { let x = gen(ctx); m.push(x.clone()); c.push_d(x); }
            2 | 3 => {
                let x = gen(ctx);
                let i = match ctx.rng.below(6) { 0 => n, 1 => n + 1, 2 => *ctx.rng.pick(&beyond(n + 1)), _ => ctx.rng.below(n + 1) };
                let ok = IsRandomInsertible::insert(&mut c, i, x.clone()).is_ok();
                ensure!(ok == (i <= n), "insert", "{}: insert at {} of {} elements: {}", what, i, n, ok);
                if i <= n { m.insert(i, x); ctx.count("insertions", 1); } else { ctx.count("insertions refused", 1); }
            }
            4 if n > 0 => { let (i, x) = (ctx.rng.below(n), gen(ctx)); m[i] = x.clone(); c.set_d(i, x); }
            5 if n > 0 => { let (i, x) = (ctx.rng.below(n), gen(ctx)); m[i] = x.clone(); c[i] = x; }
            6 => { let k = ctx.rng.below(50); if ctx.rng.bool() { IsPushable::reserve(&mut c, k); } else { c.reserve_d(k); } }
            7 if ctx.rng.chance(1, 3) => {
                let idx: HashSet<usize> = (0..n).filter(|_| ctx.rng.chance(3, 4)).collect();
                let w: Vec<P> = m.iter().enumerate().filter(|(i, _)| idx.contains(i)).map(|(_, x)| x.clone()).collect();
                match c.from_view(&View::Restricted(idx.clone())) { Some(x) => same(what, &x, &w)?, None => return fail("view", format!("{}: view refused", what)) }
                c.apply_view(&View::Restricted(idx)).map_err(|_| Fail { sig: "view".into(), detail: what.into() })?;
                m = w;
            }
            _ => { c = c.clone(); }
        }
        same(what, &c, &m)?;
        ctx.count("container operations", 1);
    }
    Ok((c, m))
}
fn sortedby<P: Clone + PartialEq + Debug>(what: &str, got: &[P], before: &[P], key: impl Fn(&P) -> f64, all: impl Fn(&P) -> Vec<u64>) -> R {
    for w in got.windows(2) { ensure!(key(&w[0]) <= key(&w[1]), "sort", "{}: {:?} before {:?}", what, w[0], w[1]); }
    let mut a: Vec<_> = got.iter().map(&all).collect();
    let mut b: Vec<_> = before.iter().map(&all).collect();
    a.sort();
    b.sort();
    ensure!(a == b, "sort", "{}: sorting changes the points, {:?} from {:?}", what, got, before);
    Ok(())
}
fn mean(v: &[V], n: usize) -> V { (0..n).map(|d| v.iter().map(|p| p[d]).sum::<f64>() / v.len() as f64).collect() }
fn mags(v: &[V]) -> f64 { v.iter().flatten().fold(0.0, |m: f64, x| m.max(x.abs())) }
fn path(v: &[V], closed: bool) -> f64 {
    let d = |a: &V, b: &V| a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt();
    let mut l: f64 = v.windows(2).map(|w| d(&w[0], &w[1])).sum();
    if closed && v.len() > 0 { l += d(&v[v.len() - 1], &v[0]); }
    l
}
fn measures(what: &str, v: &[V], n: usize, cog: Option<V>, length: f64, closed: bool) -> R {
    ensure!(cog.is_some() == (v.len() > 0), "center-of-gravity", "{}: center of gravity of {} points: {:?}", what, v.len(), cog);
    if let Some(c) = cog {
        let w = mean(v, n);
        for d in 0..n { ensure!((c[d] - w[d]).abs() <= 1e-13 * mags(v), "center-of-gravity", "{}: {:?}, should be {:?}", what, c, w); }
    }
    let l = path(v, closed);
    ensure!((length - l).abs() <= 1e-12 * l + 1e-13 * mags(v), "length", "{}: length {:?}, should be {:?}", what, length, l);
    Ok(())
}

fn containers(ctx: &mut Ctx) -> R {
    let d = *ctx.rng.pick(&DISTS);
    let steps = if ctx.rng.chance(1, 80) { 26 + ctx.rng.below(600) } else { 1 + ctx.rng.below(25) };
    let g3 = move |ctx: &mut Ctx| Point3D { x: coord_special(ctx, d), y: coord_special(ctx, d), z: coord_special(ctx, d) };
    let g2 = move |ctx: &mut Ctx| Point2D { x: coord_special(ctx, d), y: coord_special(ctx, d) };
    match ctx.rng.below(4) {
        0 => {
            let (mut c, m) = history(ctx, "PointCloud3D", PointCloud3D::new(), g3, steps)?;
            let vs: Vec<V> = m.iter().map(v3).collect();
            measures("PointCloud3D", &vs, 3, c.center_of_gravity().map(|p| v3(&p)), c.length(), false)?;
            let mut mesh: Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>> = Mesh3D::default();
            for p in &c.data { mesh.add_vertex(p.clone()); }
            if m.len() >= 3 { mesh.try_add_connection(VId(0), VId(1), VId(2)).map_err(|e| Fail { sig: "mesh".into(), detail: format!("{:?}", e) })?; }
            measures("Mesh3D", &vs, 3, mesh.center_of_gravity().map(|p| v3(&p)), c.length(), false)?;
            let s: SearchableMesh<_, _, Vec<usize>> = SearchableMesh::new(mesh);
            measures("SearchableMesh", &vs, 3, s.center_of_gravity().map(|p| v3(&p)), c.length(), false)?;
            ensure!(s.bounding_box_maybe() == c.bounding_box_maybe(), "bounds", "bounding boxes of a mesh and its cloud differ");
            let o: Vec<Point3D> = { let k = size(ctx, if steps > 25 { 200 } else { 30 }); (0..k).map(|_| g3(ctx)).collect() };
            let both: Vec<Point3D> = m.iter().chain(&o).cloned().collect();
            same("combine", &c.combine(&PointCloud3D { data: o.clone() }), &both)?;
            let mut x = c.clone();
            x.consume(PointCloud3D { data: o.clone() });
            same("consume", &x, &both)?;
            let mut x = c.clone();
            x.append_ra(&o);
            same("append_ra", &x, &both)?;
            let mut x = c.clone();
            x.append_ra(&o.iter().cloned().collect::<VecDeque<_>>());
            same("append_ra", &x, &both)?;
            let dim = ctx.rng.below(5);
            let mut s = x.clone();
            let ok = s.sort_dim(dim).is_ok();
            ensure!(ok == (dim < 3), "sort_dim", "sort_dim({}) {}", dim, ok);
            let key = |p: &Point3D| v3(p)[dim.min(2)];
            if ok { sortedby(&format!("sort_dim({})", dim), &s.data, &both, key, |p| k3(p).to_vec())? } else { same("refused sort", &s, &both)? }
            let mut s = x.clone();
            match dim { 0 => s.sort_x(), 1 => s.sort_y(), _ => s.sort_z() };
            sortedby(&format!("sort {}", dim), &s.data, &both, key, |p| k3(p).to_vec())?;
            ensure!(<PointCloud3D<Point3D> as IsSortableND>::n_dimensions() == 3, "sort_dim", "dimensions");
            x.for_each_point(|p| { p.x += 1.0; });
            same("for_each_point", &x, &both.iter().map(|p| Point3D { x: p.x + 1.0, y: p.y, z: p.z }).collect::<Vec<_>>())?;
            let t = c.to_str();
            match PointCloud3D::<Point3D>::parse(&t) { Ok(r) => { ensure!(!m.is_empty(), "parse", "no points parsed from {:?}", t); same("printed and parsed", &r, &m)? } Err(_) => ensure!(m.is_empty(), "parse", "cannot parse {:?}", t) }
            let v: Vec<Point3D> = c.clone().into();
            ensure!(v == m, "into", "cloud into Vec");
            c = PointCloud3D::from(v);
            same("from Vec", &c, &m)?;
            ctx.count("clouds", 1);
        }
        1 => {
            let (c, m) = history(ctx, "PointCloud2D", PointCloud2D::new(), g2, steps)?;
            let vs: Vec<V> = m.iter().map(v2).collect();
            measures("PointCloud2D", &vs, 2, c.center_of_gravity().map(|p| v2(&p)), c.length(), false)?;
            let o: Vec<Point2D> = { let k = size(ctx, if steps > 25 { 200 } else { 30 }); (0..k).map(|_| g2(ctx)).collect() };
            let both: Vec<Point2D> = m.iter().chain(&o).cloned().collect();
            same("combine", &c.combine(&PointCloud2D { data: o.clone() }), &both)?;
            let mut x = c.clone();
            x.consume(PointCloud2D { data: o.clone() });
            same("consume", &x, &both)?;
            let mut x = c.clone();
            x.append_ra(&o);
            same("append_ra", &x, &both)?;
            let dim = ctx.rng.below(4);
            let mut s = x.clone();
            let ok = s.sort_dim(dim).is_ok();
            ensure!(ok == (dim < 2), "sort_dim", "sort_dim({}) {}", dim, ok);
            let key = |p: &Point2D| v2(p)[dim.min(1)];
            if ok { sortedby(&format!("sort_dim({})", dim), &s.data, &both, key, |p| k2(p).to_vec())? } else { same("refused sort", &s, &both)? }
            let mut s = x.clone();
            match dim { 0 => s.sort_x(), _ => s.sort_y() };
            sortedby(&format!("sort {}", dim), &s.data, &both, key, |p| k2(p).to_vec())?;
            ensure!(<PointCloud2D<Point2D> as IsSortableND>::n_dimensions() == 2, "sort_dim", "dimensions");
            x.for_each_point(|p| { p.y += 1.0; });
            same("for_each_point", &x, &both.iter().map(|p| Point2D { x: p.x, y: p.y + 1.0 }).collect::<Vec<_>>())?;
            let t = c.to_str();
            match PointCloud2D::<Point2D>::parse(&t) { Ok(r) => { ensure!(!m.is_empty(), "parse", "no points parsed from {:?}", t); same("printed and parsed", &r, &m)? } Err(_) => ensure!(m.is_empty(), "parse", "cannot parse {:?}", t) }
            let v: Vec<Point2D> = c.clone().into();
            ensure!(v == m, "into", "cloud into Vec");
            same("from Vec", &PointCloud2D::from(v), &m)?;
            ctx.count("clouds", 1);
        }
        2 => {
            history(ctx, "Vec", Vec::new(), g3, steps)?;
            history(ctx, "VecDeque", VecDeque::new(), g3, steps)?;
        }
        _ => {
            polygon2(ctx, steps, g2)?;
            polygon3(ctx, steps, g3)?;
            let (a, b) = (g3(ctx), g3(ctx));
            let s = LineSegment3D::new(a.clone(), b.clone());
            measures("LineSegment3D", &[v3(&a), v3(&b)], 3, s.center_of_gravity().map(|p| v3(&p)), s.length(), false)?;
            let (a, b) = (g2(ctx), g2(ctx));
            let s = LineSegment2D::new(a.clone(), b.clone());
            measures("LineSegment2D", &[v2(&a), v2(&b)], 2, s.center_of_gravity().map(|p| v2(&p)), s.length(), false)?;
        }
    }
    Ok(())
}
macro_rules! polygon {
    ($name:ident, $poly:ident, $cloud:ident, $pt:ident, $v:ident, $n:expr) => {
        fn $name(ctx: &mut Ctx, steps: usize, g: impl Fn(&mut Ctx) -> $pt) -> R {
            let what = stringify!($poly);
            let k = ctx.rng.below(6);
            let mut m: Vec<$pt> = (0..k).map(|_| g(ctx)).collect();
            let mut p = $poly::from($cloud { data: m.clone() });
            for _ in 0..steps {
                let n = m.len();
                match ctx.rng.below(3) {
                    0 => { let x = g(ctx); m.push(x.clone()); let id = p.add_vertex(x); ensure!(id == VId(n), "polygon", "{}: new vertex has id {}, should be {}", what, id, n); }
                    1 => {
                        let i = match ctx.rng.below(5) { 0 => n, 1 => *ctx.rng.pick(&beyond(n)), _ => ctx.rng.below(n + 1) };
                        let x = g(ctx);
                        let ok = p.change_vertex(VId(i), x.clone()).is_ok();
                        ensure!(ok == (i < n), "polygon", "{}: change_vertex({}) of {}: {}", what, i, n, ok);
                        if ok { m[i] = x; }
                    }
                    _ => p = p.clone(),
                }
                let n = m.len();
                ensure!(p.num_segments() == n && p.num_vertices() == n, "polygon", "{}: {} segments, {} vertices, should be {}", what, p.num_segments(), p.num_vertices(), n);
                for i in 0..n + 2 {
                    let w = if i < n { Some(((i), (i + 1) % n)) } else { None };
                    ensure!(p.segment_vertex_ids(SId(i)).map(|(a, b)| (a.0, b.0)) == w, "polygon", "{}: segment {} of {} is {:?}", what, i, n, p.segment_vertex_ids(SId(i)));
                    ensure!(p.segment_vertices(SId(i)) == w.map(|(a, b)| (m[a].clone(), m[b].clone())), "polygon", "{}: segment {} of {} is {:?}", what, i, n, p.segment_vertices(SId(i)));
                    ensure!(p.vertex(VId(i)) == m.get(i).cloned(), "polygon", "{}: vertex {} is {:?}", what, i, p.vertex(VId(i)));
                }
                for x in beyond(n) { ensure!(p.vertex(VId(x)).is_none() && p.segment_vertex_ids(SId(x)).is_none() && p.segment_vertices(SId(x)).is_none(), "polygon", "{}: id {} of {}", what, x, n); }
                let vs: Vec<V> = m.iter().map($v).collect();
                measures(what, &vs, $n, p.center_of_gravity().map(|x| $v(&x)), p.length(), true)?;
                ctx.count("polygon operations", 1);
            }
            Ok(())
        }
    };
}
polygon!(polygon2, Polygon2D, PointCloud2D, Point2D, v2, 2);
polygon!(polygon3, Polygon3D, PointCloud3D, Point3D, v3, 3);

fn c25(ctx: &mut Ctx) -> R {
    if ctx.rng.chance(1, 3) { positions(ctx)? } else { containers(ctx)? }
    let s = ctx.rng.u64();
    ctx.fpu(s); // every case draws different values
    ctx.nontrivial = true;
    Ok(())
}

// ================================================================== C26
fn compressed<T: num_like::U>(ctx: &mut Ctx, pts: &[Point3D]) -> R {
    let pc = PointCloud3D { data: pts.to_vec() };
    let c = T::compress(&pc);
    let bb = {
        let n = pts.len();
        let lo: V = (0..3).map(|d| pts.iter().fold(f64::INFINITY, |m, p| m.min(v3(p)[d]))).collect();
        let hi: V = (0..3).map(|d| pts.iter().fold(f64::NEG_INFINITY, |m, p| m.max(v3(p)[d]))).collect();
        if n >= 2 && (0..3).all(|d| hi[d] > lo[d]) { Some((lo, hi)) } else { None }
    };
    let (got, unit) = match (c, &bb) {
        (None, None) => { ctx.count("not compressible", 1); return Ok(()); }
        (Some(x), Some(_)) => x,
        (a, b) => return fail("compress", format!("{} bit: compressed {}, bounding box {:?} of {}", T::BITS, a.is_some(), b, show3(pts))),
    };
    let (lo, hi) = bb.unwrap();
    ensure!(got.len() == pts.len(), "count", "{} bit: {} points became {}", T::BITS, pts.len(), got.len());
    for (p, q) in pts.iter().zip(&got.data) {
        let (a, b) = (v3(p), v3(q));
        for d in 0..3 {
            let range = hi[d] - lo[d];
            let u = range / T::MAX;
            ensure!(close2(unit[d], u), "unit", "{} bit: unit size {:?}, should be {:?}", T::BITS, unit[d], u);
            let round = 4e-16 * (lo[d].abs() + hi[d].abs() + range);
            ensure!((a[d] - b[d]).abs() <= u * (1.0 + 1e-9) + round, "precision", "{} bit: {:?} became {:?}, unit {:?}, extent {:?}", T::BITS, a[d], b[d], u, (lo[d], hi[d]));
            ensure!(b[d] >= lo[d] - round && b[d] <= hi[d] + round, "outside", "{} bit: {:?} became {:?}, outside of {:?}", T::BITS, a[d], b[d], (lo[d], hi[d]));
            if a[d] == lo[d] { ensure!(b[d] == lo[d], "lowest", "{} bit: lowest coordinate {:?} became {:?}", T::BITS, a[d], b[d]); }
            if a[d] == hi[d] { ensure!((b[d] - hi[d]).abs() <= u * (1.0 + 1e-9) + round, "highest", "{} bit: highest coordinate {:?} became {:?}", T::BITS, a[d], b[d]); }
        }
        ctx.count("points compressed", 1);
    }
    Ok(())
}
mod num_like {
    use super::*;
    pub trait U { const BITS: u32; const MAX: f64; fn compress(pc: &PointCloud3D<Point3D>) -> Option<(PointCloud3D<Point3D>, [f64; 3])>; }
    macro_rules! u { ($t:ty) => { impl U for $t {
        const BITS: u32 = <$t>::BITS;
        const MAX: f64 = <$t>::MAX as f64;
        fn compress(pc: &PointCloud3D<Point3D>) -> Option<(PointCloud3D<Point3D>, [f64; 3])> {
            let c = CompressedPointCloud3D::<$t>::compress(pc).ok()?;
            Some((c.decompress(), [c.unitsizex, c.unitsizey, c.unitsizez]))
        }
    } } }
    u!(u8); u!(u16); u!(u32); u!(u64);
}
fn single(ctx: &mut Ctx, pts: &[Point3D]) -> R {
    let r = |p: &Point3D| -> Vec<f32> { vec![p.x as f32, p.y as f32, p.z as f32] };
    let mut c: PointCloud3Df32<Point3D> = if ctx.rng.bool() { PointCloud3Df32::new() } else { PointCloud3Df32::with_capacity(pts.len()) };
    let mut m: Vec<Vec<f32>> = vec![];
    for p in pts {
        match ctx.rng.below(6) {
            0 => c.push_d(p.clone()),
            1 if !m.is_empty() => { let i = ctx.rng.below(m.len()); m[i] = r(p); c.set_d(i, p.clone()); ctx.count("single precision changes", 1); continue; }
            2 => { let k = ctx.rng.below(20); c.reserve_d(k); IsPushable::reserve(&mut c, k); IsPushable::push(&mut c, p.clone()) }
            _ => IsPushable::push(&mut c, p.clone()),
        }
        m.push(r(p));
    }
    let check = |what: &str, c: &PointCloud3Df32<Point3D>, m: &[Vec<f32>]| -> R {
        ensure!(c.len_d() == m.len(), "single-count", "{}: {} points, should be {}", what, c.len_d(), m.len());
        for (i, w) in m.iter().enumerate() {
            let g = c.get_d(i).map(|p| v3(&p));
            ensure!(g == Some(w.iter().map(|x| *x as f64).collect()), "single-precision", "{}: point {} is {:?}, should be {:?}", what, i, g, w);
        }
        for i in beyond(m.len()).into_iter().chain(beyond(3 * m.len())) { if i >= m.len() { ensure!(c.get_d(i).is_none(), "single-bounds", "{}: point {} of {}", what, i, m.len()); } }
        Ok(())
    };
    check("single precision cloud", &c, &m)?;
    if ctx.rng.chance(1, 3) {
        // moving adds the same to every point, also along some of the axes only
        let k = 10f64.powi(ctx.rng.range(-6, 6) as i32);
        let v: V = (0..3).map(|_| if ctx.rng.chance(1, 3) { 0.0 } else { ctx.rng.f(-1.0, 1.0) * k }).collect();
        if m.iter().flatten().all(|x| x.abs() < 1e30) {
            IsMovable3D::move_by(&mut c, v[0], v[1], v[2]);
            ensure!(c.len_d() == m.len(), "single-count", "{} points after moving {}", c.len_d(), m.len());
            for (i, w) in m.iter_mut().enumerate() {
                let g = v3(&c.get_d(i).unwrap());
                for d in 0..3 {
                    let e = w[d] as f64 + v[d];
                    ensure!((g[d] - e).abs() <= 1.3e-7 * (v[d].abs() + e.abs()) + 3e-45, "single-moved", "point {} {:?} moved by {:?} is {:?}", i, w, v, g);
                    w[d] = g[d] as f32;
                }
            }
            ctx.count("single precision moves", 1);
        }
    }
    check("clone", &c.clone(), &m)?;
    // bounding box of what is stored
    let bb = c.bounding_box_maybe();
    let lo: V = (0..3).map(|d| m.iter().fold(f64::INFINITY, |a, p| a.min(p[d] as f64))).collect();
    let hi: V = (0..3).map(|d| m.iter().fold(f64::NEG_INFINITY, |a, p| a.max(p[d] as f64))).collect();
    let w = m.len() >= 2 && (0..3).all(|d| hi[d] > lo[d]);
    ensure!(bb.is_some() == w, "single-bounds", "bounding box {:?} of {:?}", bb, m);
    if let Some(b) = bb { ensure!(v3(&b.min_p()) == lo && v3(&b.max_p()) == hi, "single-bounds", "bounding box {:?}, should be {:?} {:?}", b, lo, hi); }
    let v: Vec<f32> = c.into();
    ensure!(v == m.concat(), "single-raw", "raw values {:?}", v);
    check("from raw values", &PointCloud3Df32::from(v), &m)?;
    ctx.count("single precision clouds", 1);
    Ok(())
}
fn c26(ctx: &mut Ctx) -> R {
    let d = *ctx.rng.pick(&DISTS);
    let huge = !ctx.tiny && ctx.rng.chance(1, if ctx.thorough { 2000 } else { 8000 });
    let n = if huge { ctx.count("huge clouds", 1); 60_000 + ctx.rng.below(140_000) } else { size(ctx, 400) };
    let mut pts = cloud3(ctx, n, d);
    match ctx.rng.below(6) {
        0 => { let o = pt3(&mut ctx.rng, Dist::Wide); for p in pts.iter_mut() { p.x += 1e3 * o.x; p.y += 1e3 * o.y; p.z += 1e3 * o.z; } }
        1 => { let e = ctx.rng.range(-60, 60) as i32; for p in pts.iter_mut() { p.x *= 2f64.powi(e); p.z *= 2f64.powi(-e); } }
        _ => {}
    }
    fp3(ctx, &pts);
    if ctx.want_desc { ctx.desc = if huge { format!("{} points", n) } else { show3(&pts) }; }
    match ctx.rng.below(6) {
        0 => compressed::<u8>(ctx, &pts)?,
        1 => compressed::<u16>(ctx, &pts)?,
        2 => compressed::<u32>(ctx, &pts)?,
        3 => compressed::<u64>(ctx, &pts)?,
        _ => single(ctx, &pts)?,
    }
    ctx.nontrivial = n > 1;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C21", rule: "values with equal components are equal and hash equally, others differ; sets and deduplication go by value",
            quick: 3_000_000, thorough: 100_000_000, run: c21, probes: &[], must_see: &["equal pairs", "equal pairs with different zeros", "different pairs", "deduplications"], level: "exploration",
            assumptions: &["NaN components are not generated"] },
        Prop { id: "C29", rule: "comparing values is a total order that agrees with equality, in every operator, ordered set and sorting",
            quick: 2_000_000, thorough: 60_000_000, run: c29, probes: &[("same-distance", order_probe)], must_see: &["equal pairs", "ordered pairs", "chains"], level: "exploration",
            assumptions: &["NaN components are not generated", "which of two values is the smaller one is only judged for numbers and ids"] },
        Prop { id: "C25", rule: "every container equals its model after every operation; every way to read or write a position agrees",
            quick: 3_000_000, thorough: 100_000_000, run: c25, probes: &[], must_see: &["values shown", "positions accessed", "measures", "texts read", "texts refused", "container operations", "insertions", "insertions refused", "clouds", "polygon operations"], level: "exploration",
            assumptions: &["lengths, distances and centers are compared up to rounding and for magnitudes that do not overflow"] },
        Prop { id: "C26", rule: "every decompressed coordinate is within one unit of the original, every single precision coordinate is the rounded one",
            quick: 2_000_000, thorough: 60_000_000, run: c26, probes: &[], must_see: &["points compressed", "not compressible", "single precision clouds", "single precision changes"], level: "exploration",
            assumptions: &["finite coordinates, extents that are not subnormal"] },
    ]
}
