//! C16 filters and views.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::props::spatial::pos;
use rust_3d::*;
use std::collections::{BTreeSet, HashSet, LinkedList, VecDeque};

/// any filter, so that the generic combinators can be nested at run time
struct Dy<T>(Box<dyn IsFilter<T>>);
impl<T> IsFilter<T> for Dy<T> { fn is_allowed(&self, x: &T) -> bool { self.0.is_allowed(x) } }

#[derive(Clone, Debug)]
struct Item { x: f64, y: f64, z: f64, id: usize }
#[derive(Clone, Debug)]
enum E { Leaf(usize), Allow, Deny, Not(Box<E>), And(Box<E>, Box<E>), Or(Box<E>, Box<E>), Xor(Box<E>, Box<E>), Hollow(Box<E>, Box<E>), All(Vec<E>), Any(Vec<E>) }

fn long_list(ctx: &mut Ctx) -> usize { *ctx.rng.pick(&[4usize, 8, 15, 16, 17, 32, 33, 63, 64, 65, 130, 257]) }
fn tree(ctx: &mut Ctx, leaves: usize, depth: usize) -> E {
    if depth == 0 || ctx.rng.chance(1, 5) { return match ctx.rng.below(12) { 0 => E::Allow, 1 => E::Deny, _ => E::Leaf(ctx.rng.below(leaves)) }; }
    let sub = |ctx: &mut Ctx| Box::new(tree(ctx, leaves, depth - 1));
    match ctx.rng.below(8) {
        0 => E::Not(sub(ctx)),
        1 => { let a = sub(ctx); E::And(a, sub(ctx)) }
        2 => { let a = sub(ctx); E::Or(a, sub(ctx)) }
        3 => { let a = sub(ctx); E::Xor(a, sub(ctx)) }
        4 => { let a = sub(ctx); E::Hollow(a, sub(ctx)) }
        k @ 5 | k @ 6 => {
            let n = ctx.rng.below(4);
            let mut v: Vec<E> = (0..n).map(|_| tree(ctx, leaves, depth - 1)).collect();
            // long lists: most entries don't decide, those that do are anywhere, preferably at the end
            if ctx.rng.chance(1, 25) {
                let total = n + long_list(ctx);
                let at = if ctx.rng.bool() { 0 } else { ctx.rng.below(total - n + 1) };
                for i in 0..total - n { let e = if k == 5 { E::Allow } else { E::Deny }; if i < total - n - at { v.insert(0, e) } else { v.push(e) } }
                ctx.count("long_filter_lists", 1);
            }
            if k == 5 { E::All(v) } else { E::Any(v) }
        }
        _ => E::Leaf(ctx.rng.below(leaves)),
    }
}
type Tri = Option<bool>;
fn not(a: Tri) -> Tri { a.map(|x| !x) }
fn and(a: Tri, b: Tri) -> Tri { match (a, b) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None } }
fn or(a: Tri, b: Tri) -> Tri { not(and(not(a), not(b))) }
fn eval(e: &E, leaf: &dyn Fn(usize) -> Tri) -> Tri {
    match e {
        E::Leaf(i) => leaf(*i),
        E::Allow => Some(true),
        E::Deny => Some(false),
        E::Not(a) => not(eval(a, leaf)),
        E::And(a, b) => and(eval(a, leaf), eval(b, leaf)),
        E::Or(a, b) => or(eval(a, leaf), eval(b, leaf)),
        E::Xor(a, b) => match (eval(a, leaf), eval(b, leaf)) { (Some(x), Some(y)) => Some(x != y), _ => None },
        E::Hollow(a, b) => and(eval(a, leaf), not(eval(b, leaf))),
        E::All(v) => v.iter().fold(Some(true), |x, e| and(x, eval(e, leaf))),
        E::Any(v) => v.iter().fold(Some(false), |x, e| or(x, eval(e, leaf))),
    }
}
fn make<T: 'static>(e: &E, leaf: &dyn Fn(usize) -> Box<dyn IsFilter<T>>) -> Dy<T> {
    Dy(match e {
        E::Leaf(i) => leaf(*i),
        E::Allow => Box::new(FilterAllow::new()),
        E::Deny => Box::new(FilterDeny::new()),
        E::Not(a) => Box::new(FilterNegate::new(make(a, leaf))),
        E::And(a, b) => Box::new(FilterAND::new(make(a, leaf), make(b, leaf))),
        E::Or(a, b) => Box::new(FilterOR::new(make(a, leaf), make(b, leaf))),
        E::Xor(a, b) => Box::new(FilterXOR::new(make(a, leaf), make(b, leaf))),
        E::Hollow(a, b) => Box::new(FilterOuterInner::new(make(a, leaf), make(b, leaf))),
        E::All(v) => { let mut f = FilterAll::new(); for x in v { f.filters.push(Box::new(make(x, leaf))); } Box::new(f) }
        E::Any(v) => { let mut f = FilterAny::new(); for x in v { f.filters.push(Box::new(make(x, leaf))); } Box::new(f) }
    })
}

// ------------------------------------------------ leaves
#[derive(Clone, Debug)]
enum Leaf { Box { c: [f64; 3], s: [f64; 3], how: usize }, Ball { c: [f64; 3], r: f64, how: usize }, Near { pts: Vec<Point3D>, r: f64, min: usize, how: usize }, Dir { c: [f64; 3], eps: f64 } }
#[derive(Clone)]
struct Radial([f64; 3]);
impl Radial {
    fn at(&self, x: f64, y: f64, z: f64) -> [f64; 3] { let v = [x - self.0[0], y - self.0[1], z - self.0[2]]; let l = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt(); if l == 0.0 { [1.0, 0.0, 0.0] } else { [v[0] / l, v[1] / l, v[2] / l] } }
}
impl IsDirectionField3D for Radial { fn direction_at<P: Is3D>(&self, p: &P) -> Norm3D { let d = self.at(p.x(), p.y(), p.z()); Norm3D::new(Point3D { x: d[0], y: d[1], z: d[2] }).expect("HARNESS direction") } }
impl IsDirectionField2D for Radial { fn direction_at<P: Is2D>(&self, p: &P) -> Norm2D { let d = self.at(p.x(), p.y(), self.0[2]); Norm2D::new(Point2D { x: d[0], y: d[1] }).expect("HARNESS direction") } }

struct Brute(Vec<Point3D>);
impl IsSphereSearchable<Point3D> for Brute { fn in_sphere(&self, s: &Sphere, out: &mut Vec<Point3D>) { for p in &self.0 { if d3(p, &s.center) <= *s.radius { out.push(p.clone()); } } } }

fn leaf3(l: &Leaf) -> Box<dyn IsFilter<Point3D>> {
    match l {
        Leaf::Box { c, s, how } => Box::new(match how {
            0 => FilterBox3D::new(Box3D { center: Point3D { x: c[0], y: c[1], z: c[2] }, size_x: pos(s[0]), size_y: pos(s[1]), size_z: pos(s[2]) }),
            1 => {
                let mut f = FilterBox3D::new(Box3D { center: Point3D { x: 9.0, y: 8.0, z: 7.0 }, size_x: pos(s[0] * 2.0), size_y: pos(s[1] * 2.0), size_z: pos(s[2] * 2.0) });
                f.scale(pos(0.5));
                f.set_x(c[0]);
                f.set_y(c[1]);
                f.set_z(c[2]);
                f
            }
            _ => <FilterBox3D as From<BoundingBox3D>>::from(BoundingBox3D::new(&Point3D { x: c[0] - s[0] / 2.0, y: c[1] - s[1] / 2.0, z: c[2] - s[2] / 2.0 }, &Point3D { x: c[0] + s[0] / 2.0, y: c[1] + s[1] / 2.0, z: c[2] + s[2] / 2.0 }).expect("HARNESS box")),
        }),
        Leaf::Ball { c, r, how } => Box::new(if *how == 0 { FilterSphere::new(Sphere { center: Point3D { x: c[0], y: c[1], z: c[2] }, radius: pos(*r) }) } else {
            let mut f = FilterSphere::new(Sphere { center: Point3D::default(), radius: pos(r / 4.0) });
            f.scale(pos(4.0));
            f.set_position(0, c[0]).and_then(|_| f.set_position(1, c[1])).and_then(|_| f.set_position(2, c[2])).expect("set_position failed");
            f
        }),
        Leaf::Near { pts, r, min, how } => if *how == 0 || pts.is_empty() { let mut f = FilterOutlier3D::new(Brute(pts.clone()), pos(*r * 2.0), *min); f.scale(pos(0.5)); Box::new(f) } else {
            let mut t = KdTree::default();
            t.build(PointCloud3D { data: pts.clone() }).expect("k-d tree");
            Box::new(FilterOutlier3D::new(t, pos(*r), *min))
        },
        Leaf::Dir { .. } => unreachable!("HARNESS"),
    }
}
fn leaf2(l: &Leaf) -> Box<dyn IsFilter<Point2D>> {
    match l {
        Leaf::Box { c, s, how } => Box::new(match how {
            0 => FilterBox2D::new(Box2D { center: Point2D { x: c[0], y: c[1] }, size_x: pos(s[0]), size_y: pos(s[1]) }),
            1 => { let mut f = FilterBox2D::new(Box2D { center: Point2D { x: 9.0, y: 8.0 }, size_x: pos(s[0] * 2.0), size_y: pos(s[1] * 2.0) }); f.scale(pos(0.5)); f.set_x(c[0]); f.set_y(c[1]); f }
            _ => <FilterBox2D as From<BoundingBox2D>>::from(BoundingBox2D::new(&Point2D { x: c[0] - s[0] / 2.0, y: c[1] - s[1] / 2.0 }, &Point2D { x: c[0] + s[0] / 2.0, y: c[1] + s[1] / 2.0 }).expect("HARNESS box")),
        }),
        Leaf::Ball { c, r, how } => Box::new(if *how == 0 { FilterCircle::new(Circle { center: Point2D { x: c[0], y: c[1] }, radius: pos(*r) }) } else {
            let mut f = FilterCircle::new(Circle { center: Point2D::default(), radius: pos(r / 4.0) });
            f.scale(pos(4.0));
            f.set_position(0, c[0]).and_then(|_| f.set_position(1, c[1])).expect("set_position failed");
            f
        }),
        _ => unreachable!("HARNESS"),
    }
}
fn leaf_d3(l: &Leaf) -> Box<dyn IsFilter<(Point3D, Norm3D)>> { match l { Leaf::Dir { c, eps } => Box::new(FilterDirectionField3D::new(Radial(*c), Rad(*eps))), _ => unreachable!("HARNESS") } }
fn leaf_d2(l: &Leaf) -> Box<dyn IsFilter<(Point2D, Norm2D)>> { match l { Leaf::Dir { c, eps } => Box::new(FilterDirectionField2D::new(Radial(*c), Rad(*eps))), _ => unreachable!("HARNESS") } }

fn grid(x: f64) -> bool { x.abs() < 1e6 && (x * 64.0).fract() == 0.0 }
fn le(a: f64, b: f64, exact: bool, scale: f64) -> Tri { if exact { Some(a <= b) } else if (a - b).abs() <= 1e-9 * scale { None } else { Some(a <= b) } }
/// does the leaf accept the item? None: too close to the border to tell
fn want(l: &Leaf, it: &Item, dims: usize, dir: &[f64; 3], u: f64) -> Tri {
    let p = [it.x, it.y, it.z];
    // coordinates are multiples of the unit (a power of two)
    let grid = |x: f64| grid(x / u);
    match l {
        Leaf::Box { c, s, .. } => {
            let ex = (0..dims).all(|d| grid(p[d]) && grid(c[d]) && grid(s[d]));
            (0..dims).fold(Some(true), |a, d| and(a, le((p[d] - c[d]).abs(), s[d] / 2.0, ex, p[d].abs() + c[d].abs() + s[d])))
        }
        Leaf::Ball { c, r, .. } => {
            let q: f64 = (0..dims).map(|d| (p[d] - c[d]) * (p[d] - c[d])).sum();
            let ex = grid(*r) && (0..dims).all(|d| grid(p[d]) && grid(c[d]));
            if ex { Some(q <= r * r) } else { le(q.sqrt(), *r, false, q.sqrt() + r + c.iter().chain(&p).map(|x| x.abs()).sum::<f64>()) }
        }
        Leaf::Near { pts, r, min, .. } => {
            let (mut sure, mut maybe) = (0, 0);
            for q in pts {
                let d = d3(q, &Point3D { x: p[0], y: p[1], z: p[2] });
                match le(d, *r, false, d + r + p.iter().map(|x| x.abs()).sum::<f64>()) { Some(true) => sure += 1, None => maybe += 1, _ => {} }
            }
            if sure >= *min { Some(true) } else if sure + maybe < *min { Some(false) } else { None }
        }
        Leaf::Dir { c, eps } => {
            let e = if dims == 3 { Radial(*c).at(p[0], p[1], p[2]) } else { Radial(*c).at(p[0], p[1], c[2]) };
            let cr = [e[1] * dir[2] - e[2] * dir[1], e[2] * dir[0] - e[0] * dir[2], e[0] * dir[1] - e[1] * dir[0]];
            let a = (cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]).sqrt().atan2(e[0] * dir[0] + e[1] * dir[1] + e[2] * dir[2]);
            // an angle read off its cosine is only good to 1e-16 / sin
            let m = if a.sin() > 1e-5 { 1e-13 / a.sin() } else { 1e-6 };
            if (a - eps).abs() < m { None } else { Some(a <= *eps) }
        }
    }
}

// ------------------------------------------------ random accessible level
#[derive(Clone, Debug)]
enum Ra { One(E), All(Vec<Ra>), Any(Vec<Ra>) }
fn ra_tree(ctx: &mut Ctx, leaves: usize, depth: usize) -> Ra {
    if depth == 0 || ctx.rng.chance(1, 3) { return Ra::One(tree(ctx, leaves, 1)); }
    let n = ctx.rng.below(4);
    let mut v: Vec<Ra> = (0..n).map(|_| ra_tree(ctx, leaves, depth - 1)).collect();
    let all = ctx.rng.bool();
    if ctx.rng.chance(1, 60) { for _ in 0..long_list(ctx).min(70) { v.insert(0, Ra::One(if all { E::Allow } else { E::Deny })); } ctx.count("long_filter_lists", 1); }
    if all { Ra::All(v) } else { Ra::Any(v) }
}
fn ra_eval(r: &Ra, leaf: &dyn Fn(usize) -> Tri, in_range: bool) -> Tri {
    match r { Ra::One(e) => if in_range { eval(e, leaf) } else { Some(false) }, Ra::All(v) => v.iter().fold(Some(true), |x, e| and(x, ra_eval(e, leaf, in_range))), Ra::Any(v) => v.iter().fold(Some(false), |x, e| or(x, ra_eval(e, leaf, in_range))) }
}
fn ra_make<RA: IsRandomAccessible<T> + 'static, T: 'static>(r: &Ra, leaf: &dyn Fn(usize) -> Box<dyn IsFilter<T>>) -> Box<dyn IsFilterRandomAccessible<RA, T>> {
    match r {
        Ra::One(e) => Box::new(FilterRandomAccessible::new(make(e, leaf))),
        Ra::All(v) => Box::new(FilterAllRandomAccessible { filters: v.iter().map(|x| ra_make(x, leaf)).collect() }),
        Ra::Any(v) => Box::new(FilterAnyRandomAccessible { filters: v.iter().map(|x| ra_make(x, leaf)).collect() }),
    }
}
fn start_view(ctx: &mut Ctx, n: usize) -> (View, BTreeSet<usize>) {
    match ctx.rng.below(4) {
        0 | 1 => (View::Full, (0..n).collect()),
        2 => { let s: BTreeSet<usize> = (0..n).filter(|_| ctx.rng.bool()).collect(); (View::Restricted(s.iter().cloned().collect()), s) }
        _ => { let mut s: BTreeSet<usize> = (0..n).filter(|_| ctx.rng.chance(1, 4)).collect(); if n > 0 { for _ in 0..ctx.rng.below(3) { let k = n + *ctx.rng.pick(&[0, 1, 5, 1000]); s.insert(k); } } (View::Restricted(s.iter().cloned().collect()), s) }
    }
}
fn selected(v: &View, n: usize) -> BTreeSet<usize> { match v { View::Full => (0..n).collect(), View::Restricted(s) => s.iter().cloned().collect() } }

fn run_ra<RA: IsRandomAccessible<T> + IsViewBuildable + 'static, T: 'static>(ctx: &mut Ctx, ra: &RA, n: usize, r: &Ra, mk: &dyn Fn(usize) -> Box<dyn IsFilter<T>>, leaf: &dyn Fn(usize, usize) -> Tri, ids: &dyn Fn(&RA) -> Vec<usize>, what: &str) -> R {
    let (mut view, start) = start_view(ctx, n);
    let f: Box<dyn IsFilterRandomAccessible<RA, T>> = ra_make(r, mk);
    f.filter(ra, &mut view);
    let got = selected(&view, n);
    for i in &got { ensure!(start.contains(i), "view-grew", "{}: filtering added index {} to the view {:?} of {} elements: {:?}", what, i, start, n, r); }
    for i in &start {
        match ra_eval(r, &|l| leaf(l, *i), *i < n) {
            Some(w) => ensure!(got.contains(i) == w, "view-selection", "{}: element {} of {} {} although the filter says {}; filter {:?} view before {:?} after {:?}", what, i, n, if w { "was removed" } else { "was kept" }, w, r, start, got),
            None => ctx.count("undecided", 1),
        }
    }
    ctx.count("container_filterings", 1);
    // applying the view keeps exactly the selected elements in order
    let oob = got.iter().any(|i| *i >= n);
    let before = ids(ra);
    let fv = ra.from_view(&view);
    match fv {
        None => ensure!(oob, "view-apply", "{}: from_view refuses a view within bounds {:?} of {}", what, got, n),
        Some(x) => { ensure!(!oob, "view-bounds", "{}: from_view accepts index out of bounds {:?} of {}", what, got, n); ensure!(ids(&x) == got.iter().map(|i| before[*i]).collect::<Vec<_>>(), "view-apply", "{}: view {:?} gives {:?} of {:?}", what, got, ids(&x), before); }
    }
    ensure!(ids(ra) == before, "view-source", "{}: from_view changed its source", what);
    if got.len() > 0 && got.len() < start.len() { ctx.nontrivial = true; }
    Ok(())
}
fn apply<C: IsViewBuildable>(ctx: &mut Ctx, mut c: C, ids: &dyn Fn(&C) -> Vec<usize>, what: &str) -> R {
    let before = ids(&c);
    let n = before.len();
    let (mut view, mut set) = start_view(ctx, n);
    if n == 0 && ctx.rng.bool() { set = vec![*ctx.rng.pick(&[0usize, 1, 7])].into_iter().collect(); view = View::Restricted(set.iter().cloned().collect()); ctx.count("views of positions on empty containers", 1); }
    let oob = set.iter().any(|i| *i >= n);
    let fv = c.from_view(&view).map(|x| ids(&x));
    let r = c.apply_view(&view);
    let after = ids(&c);
    if oob {
        ensure!(r.is_err() && fv.is_none() && after == before, "view-bounds", "{}: view {:?} of {} elements: apply_view {:?}, from_view {:?}, content {:?} -> {:?}", what, set, n, r, fv, before, after);
        ctx.count("views_out_of_bounds", 1);
    } else {
        let want: Vec<usize> = set.iter().map(|i| before[*i]).collect();
        ensure!(r.is_ok() && after == want && fv == Some(want.clone()), "view-apply", "{}: view {:?} of {:?}: apply_view {:?} leaves {:?}, from_view {:?}", what, set, before, r, after, fv);
        ctx.count("views_applied", 1);
    }
    Ok(())
}
fn union(ctx: &mut Ctx) -> R {
    let n = ctx.rng.below(30);
    let (mut a, sa) = start_view(ctx, n);
    let (b, sb) = start_view(ctx, n);
    let full = a == View::Full || b == View::Full;
    a.union(b.clone());
    if full { ensure!(a == View::Full, "view-union", "union with the full view is {:?}", a); } else {
        let want: HashSet<usize> = sa.union(&sb).cloned().collect();
        ensure!(a == View::Restricted(want.clone()), "view-union", "union of {:?} and {:?} is {:?}", sa, sb, a);
    }
    ctx.count("unions", 1);
    Ok(())
}

fn dirs(ctx: &mut Ctx, dims: usize, base: [f64; 3]) -> [f64; 3] {
    let mut d = match ctx.rng.below(4) { 0 => base, 1 => [-base[0], -base[1], -base[2]], 2 => [ctx.rng.range(-1, 1) as f64, ctx.rng.range(-1, 1) as f64, 1e-3], _ => [ctx.rng.f(-1., 1.), ctx.rng.f(-1., 1.), ctx.rng.f(-1., 1.)] };
    if dims == 2 { d[2] = 0.0; }
    let l = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
    if l < 1e-6 { return [0.0, 1.0, 0.0]; }
    [d[0] / l, d[1] / l, d[2] / l]
}
fn filters(ctx: &mut Ctx) -> R {
    let kind = ctx.rng.below(8);
    let dims = if kind % 2 == 0 { 3 } else { 2 };
    let directional = kind >= 6;
    let d = *ctx.rng.pick(&[Dist::Grid, Dist::Grid, Dist::Dyadic, Dist::Uniform, Dist::Cluster, Dist::Lattice, Dist::Small, Dist::Large, Dist::Tiny, Dist::Huge]);
    let big = !ctx.tiny && ctx.rng.chance(1, 2000);
    let n = match ctx.rng.below(8) { _ if big => { ctx.count("big_containers_filtered", 1); *ctx.rng.pick(&[255usize, 256, 257, 300, 1000, 5000]) } 0 => 0, 1 => 1, 2 => ctx.rng.below(80), _ => ctx.rng.below(20) };
    let pts = cloud3(ctx, n, d);
    let items: Vec<Item> = pts.iter().enumerate().map(|(id, p)| Item { x: p.x, y: p.y, z: p.z, id }).collect();
    let nl = 1 + ctx.rng.below(3);
    let mut leaves: Vec<Leaf> = (0..nl).map(|_| {
        let c = if n > 0 && ctx.rng.bool() { let p = &pts[ctx.rng.below(n)]; [p.x, p.y, p.z] } else { [coord(&mut ctx.rng, d), coord(&mut ctx.rng, d), coord(&mut ctx.rng, d)] };
        if directional { return Leaf::Dir { c, eps: match ctx.rng.below(4) { 0 => std::f64::consts::FRAC_PI_2 + ctx.rng.f(-0.1, 0.1), 1 => ctx.rng.f(0.001, 0.1), _ => ctx.rng.f(0.0, 3.2) } }; }
        let ext = match d { Dist::Grid => 3.0, Dist::Lattice => 1000.0, Dist::Small => 8.0 * unit(d), Dist::Large => 1000.0 * unit(d), _ => 60.0 * unit(d) };
        let sz = |ctx: &mut Ctx| if ctx.rng.bool() { ctx.rng.range(1, 8) as f64 * ext / 8.0 } else { ctx.rng.f(0.05, 2.0) * ext };
        match ctx.rng.below(if dims == 3 { 3 } else { 2 }) {
            0 => Leaf::Box { c, s: [sz(ctx), sz(ctx), sz(ctx)], how: ctx.rng.below(3) },
            1 => Leaf::Ball { c, r: sz(ctx), how: ctx.rng.below(2) },
            _ => { let k = ctx.rng.below(30); let q = if ctx.rng.bool() { pts.clone() } else { cloud3(ctx, k, d) }; Leaf::Near { pts: q, r: sz(ctx), min: ctx.rng.below(5), how: ctx.rng.below(2) } }
        }
    }).collect();
    let e = tree(ctx, nl, 4);
    let dv: Vec<[f64; 3]> = items.iter().map(|it| { let Leaf::Dir { c, .. } = &leaves[0] else { return [0.0, 0.0, 1.0] }; let b = Radial(*c).at(it.x, it.y, if dims == 3 { it.z } else { c[2] }); dirs(ctx, dims, b) }).collect();
    if directional && n > 0 && ctx.rng.chance(1, 3) {
        // a limit just above or below the angle of one of the directions
        let i = ctx.rng.below(n);
        let j = ctx.rng.below(nl);
        let delta = 10f64.powf(ctx.rng.f(-12.0, -3.0)) * if ctx.rng.bool() { 1.0 } else { -1.0 };
        let (it, v) = (&items[i], &dv[i]);
        if let Leaf::Dir { c, eps } = &mut leaves[j] {
            let b = Radial(*c).at(it.x, it.y, if dims == 3 { it.z } else { c[2] });
            let a = (b[0] * v[0] + b[1] * v[1] + b[2] * v[2]).max(-1.0).min(1.0).acos();
            if a > 0.01 { *eps = a + delta; ctx.count("limits_close_to_an_angle", 1); }
        }
    }
    fp3(ctx, &pts);
    ctx.fpb(format!("{:?}{:?}", leaves, e).as_bytes());
    if ctx.want_desc { ctx.note(format!("{} filters {:?} leaves {:?} points {}", dims, e, leaves, show3(&pts))); }
    let p2: Vec<Point2D> = items.iter().map(|i| Point2D { x: i.x, y: i.y }).collect();
    let pd3: Vec<(Point3D, Norm3D)> = if directional && dims == 3 { pts.iter().zip(&dv).map(|(p, v)| (p.clone(), Norm3D::new(Point3D { x: v[0], y: v[1], z: v[2] }).expect("HARNESS"))).collect() } else { vec![] };
    let pd2: Vec<(Point2D, Norm2D)> = if directional && dims == 2 { p2.iter().zip(&dv).map(|(p, v)| (p.clone(), Norm2D::new(Point2D { x: v[0], y: v[1] }).expect("HARNESS"))).collect() } else { vec![] };
    let judge = |l: usize, i: usize| want(&leaves[l], &items[i], dims, &dv[i], unit(d));
    // single elements
    let got: Vec<bool> = match (directional, dims) {
        (false, 3) => { let f = make(&e, &|i| leaf3(&leaves[i])); pts.iter().map(|p| f.is_allowed(p)).collect() }
        (false, _) => { let f = make(&e, &|i| leaf2(&leaves[i])); p2.iter().map(|p| f.is_allowed(p)).collect() }
        (true, 3) => { let f = make(&e, &|i| leaf_d3(&leaves[i])); pd3.iter().map(|p| f.is_allowed(p)).collect() }
        (true, _) => { let f = make(&e, &|i| leaf_d2(&leaves[i])); pd2.iter().map(|p| f.is_allowed(p)).collect() }
    };
    for i in 0..n {
        match eval(&e, &|l| judge(l, i)) {
            Some(w) => ensure!(got[i] == w, "filter-result", "the filter says {} for {:?} (direction {:?}), expected {}; filter {:?} leaves {:?}", got[i], items[i], dv[i], w, e, leaves),
            None => ctx.count("undecided", 1),
        }
        ctx.count(if got[i] { "allowed" } else { "denied" }, 1);
    }
    if got.iter().any(|x| *x) && got.iter().any(|x| !*x) { ctx.nontrivial = true; }
    // whole containers
    let r = ra_tree(ctx, nl, 3);
    // elements are identified by their index, duplicates included
    let sel = ctx.rng.below(3);
    match (directional, dims) {
        (false, 3) => {
            let key: std::collections::HashMap<[u64; 3], usize> = pts.iter().enumerate().map(|(i, p)| (k3(p), i)).collect();
            let id = |p: &Point3D| key[&k3(p)];
            let mk = |i: usize| leaf3(&leaves[i]);
            match sel {
                0 => run_ra(ctx, &pts, n, &r, &mk, &judge, &|x: &Vec<Point3D>| x.iter().map(|p| id(p)).collect(), "Vec")?,
                1 => run_ra(ctx, &pts.iter().cloned().collect::<VecDeque<_>>(), n, &r, &mk, &judge, &|x: &VecDeque<Point3D>| x.iter().map(|p| id(p)).collect(), "VecDeque")?,
                _ => run_ra(ctx, &PointCloud3D { data: pts.clone() }, n, &r, &mk, &judge, &|x: &PointCloud3D<Point3D>| x.data.iter().map(|p| id(p)).collect(), "PointCloud3D")?,
            }
        }
        (false, _) => {
            let key: std::collections::HashMap<[u64; 2], usize> = p2.iter().enumerate().map(|(i, p)| (k2(p), i)).collect();
            let id = |p: &Point2D| key[&k2(p)];
            run_ra(ctx, &PointCloud2D { data: p2.clone() }, n, &r, &|i| leaf2(&leaves[i]), &judge, &|x: &PointCloud2D<Point2D>| x.data.iter().map(|p| id(p)).collect(), "PointCloud2D")?
        }
        (true, 3) => run_ra(ctx, &pd3, n, &r, &|i| leaf_d3(&leaves[i]), &judge, &|x: &Vec<(Point3D, Norm3D)>| x.iter().map(|p| pts.iter().position(|q| k3(q) == k3(&p.0)).expect("foreign point")).collect(), "Vec of pairs")?,
        (true, _) => run_ra(ctx, &pd2, n, &r, &|i| leaf_d2(&leaves[i]), &judge, &|x: &Vec<(Point2D, Norm2D)>| x.iter().map(|p| p2.iter().position(|q| k2(q) == k2(&p.0)).expect("foreign point")).collect(), "Vec of pairs")?,
    }
    if directional { ctx.count("direction_filters", 1); }
    // views on every container
    let n = if !ctx.tiny && ctx.rng.chance(1, 3000) { ctx.count("big_views", 1); *ctx.rng.pick(&[255usize, 256, 257, 1000, 65535, 65536, 65537, 70000]) } else { n };
    let idv: Vec<usize> = (0..n).map(|i| i * 3).collect();
    match ctx.rng.below(6) {
        0 => apply(ctx, idv, &|x: &Vec<usize>| x.to_vec(), "Vec")?,
        1 => apply(ctx, idv.into_iter().collect::<VecDeque<_>>(), &|x: &VecDeque<usize>| x.iter().cloned().collect(), "VecDeque")?,
        2 => apply(ctx, idv.into_iter().collect::<LinkedList<_>>(), &|x: &LinkedList<usize>| x.iter().cloned().collect(), "LinkedList")?,
        3 => apply(ctx, PointCloud3D { data: (0..n).map(|i| Point3D { x: i as f64, y: 0.0, z: 1.0 }).collect::<Vec<_>>() }, &|x: &PointCloud3D<Point3D>| x.data.iter().map(|p| p.x as usize).collect(), "PointCloud3D")?,
        4 => apply(ctx, PointCloud2D { data: (0..n).map(|i| Point2D { x: i as f64, y: 0.0 }).collect::<Vec<_>>() }, &|x: &PointCloud2D<Point2D>| x.data.iter().map(|p| p.x as usize).collect(), "PointCloud2D")?,
        _ => union(ctx)?,
    }
    Ok(())
}

// ---------------------------------------------------------------- probes
fn probe_any_ra() -> R {
    let pts = vec![Point3D { x: 0., y: 0., z: 0. }, Point3D { x: 5., y: 0., z: 0. }, Point3D { x: 9., y: 0., z: 0. }];
    let f = |x: f64| -> Box<dyn IsFilterRandomAccessible<Vec<Point3D>, Point3D>> { Box::new(FilterRandomAccessible::new(FilterSphere::new(Sphere { center: Point3D { x, y: 0., z: 0. }, radius: pos(1.0) }))) };
    let any = FilterAnyRandomAccessible { filters: vec![f(0.0), f(5.0)] };
    let mut v = View::Full;
    any.filter(&pts, &mut v);
    ensure!(selected(&v, 3) == [0, 1].iter().cloned().collect(), "view-selection", "any of two spheres selects {:?}", v);
    Ok(())
}
fn probe_direction_2d() -> R {
    let f = FilterDirectionField2D::new(Radial([-1.0, 0.0, 0.0]), Rad(0.5));
    let n = |x: f64, y: f64| (Point2D { x: 0., y: 0. }, Norm2D::new(Point2D { x, y }).expect("HARNESS"));
    for (x, y, w) in [(1., 0., true), (1., 0.1, true), (1., -0.1, true), (0., 1., false), (0., -1., false), (-1., 0., false)].iter() {
        ensure!(f.is_allowed(&n(*x, *y)) == *w, "filter-result", "direction ({}, {}) within 0.5 of (1, 0): {}", x, y, !w);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C16", rule: "a filter accepts exactly what its definition says and a view keeps exactly what it selects", quick: 2_000_000, thorough: 40_000_000, run: filters,
        probes: &[("any-random-accessible", probe_any_ra), ("direction-2d", probe_direction_2d)],
        must_see: &["allowed", "denied", "container_filterings", "direction_filters", "views_applied", "views_out_of_bounds", "unions"], level: "exploration",
        assumptions: &["elements within rounding distance of the border of a shape (or of the angle) may be decided either way"] }]
}
