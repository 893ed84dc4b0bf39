//! C22 matrices, pipes, transformations.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::props::spatial::pos;
use rust_3d::{
    center, conn, cross, extrude, set_size, BoundingBox2D, BoundingBox3D, Box2D, Box3D, BoxUnaligned3D, Circle, FId, Face3, FilterBox2D, FilterBox3D, FilterCircle, FilterSphere, HasBoundingBox2DMaybe, HasBoundingBox3DMaybe, HasCenterOfGravity3D,
    Is2D, Is3D, IsBuildable2D, IsBuildable3D, IsEditable2D, IsEditable3D, IsFaceEditableMesh, IsMatrix3Transformable, IsMatrix4Transformable, IsMesh, IsMovable2D, IsMovable3D, IsNormalized2D, IsNormalized3D, IsPolygon,
    IsPushable, IsScalable, IsTransFormableTo2D, IsTransFormableTo3D, IsVertexEditableMesh, Line2D, Line3D, LineSegment2D, LineSegment3D, Matrix3, Matrix3Pipe, Matrix4, Matrix4Pipe, Mesh3D, Norm2D, Norm3D, Point2D, Point3D,
    PointCloud2D, PointCloud3D, PointCloud3Df32, Polygon2D, Polygon3D, Positive, Rad, Ray2D, Ray3D, SearchableMesh, Sphere, VId,
};
use std::collections::{LinkedList, VecDeque};

type V = Vec<f64>;
type M = Vec<Vec<f64>>;

fn ident(n: usize) -> M { (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect() }
fn mm(a: &M, b: &M) -> M {
    let n = a.len();
    (0..n).map(|i| (0..n).map(|j| (0..n).map(|k| a[i][k] * b[k][j]).sum()).collect()).collect()
}
/// sum of the absolute values of the terms, for the tolerance
fn mmabs(a: &M, b: &M) -> M {
    let ab = |m: &M| -> M { m.iter().map(|r| r.iter().map(|x| x.abs()).collect()).collect() };
    mm(&ab(a), &ab(b))
}
fn m3(m: &Matrix3) -> M { m.data.iter().map(|r| r.to_vec()).collect() }
fn m4(m: &Matrix4) -> M { m.data.iter().map(|r| r.to_vec()).collect() }
fn to3(m: &M) -> Matrix3 { let mut r = Matrix3::zeroes(); for i in 0..3 { for j in 0..3 { r.data[i][j] = m[i][j]; } } r }
fn to4(m: &M) -> Matrix4 { let mut r = Matrix4::zeroes(); for i in 0..4 { for j in 0..4 { r.data[i][j] = m[i][j]; } } r }

fn same(what: &str, got: &M, want: &M, scale: &M, tol: f64) -> R {
    for i in 0..want.len() {
        for j in 0..want.len() {
            let (g, w, s) = (got[i][j], want[i][j], scale[i][j]);
            ensure!(g == w || (g - w).abs() <= tol * s, "matrix", "{}: entry {},{} is {:?}, should be {:?}", what, i, j, g, w);
        }
    }
    Ok(())
}
fn ones(n: usize) -> M { vec![vec![1.0; n]; n] }

/// affine map of a position by the matrix (the last row is not used), and the magnitude of the terms
fn apply(m: &M, p: &[f64]) -> (V, V) {
    let n = p.len();
    let v = (0..n).map(|i| (0..n).map(|k| m[i][k] * p[k]).sum::<f64>() + m[i][n]).collect();
    let s = (0..n).map(|i| (0..n).map(|k| (m[i][k] * p[k]).abs()).sum::<f64>() + m[i][n].abs()).collect();
    (v, s)
}

fn rmat(ctx: &mut Ctx, n: usize) -> (M, bool) {
    let exact = ctx.rng.bool();
    let sparse = ctx.rng.chance(1, 3);
    let m = (0..n).map(|_| (0..n).map(|_| {
        if sparse && ctx.rng.bool() { return 0.0; }
        if exact { ctx.rng.range(-64, 64) as f64 / 4.0 } else { let d = *ctx.rng.pick(&DISTS); coord(&mut ctx.rng, d) }
    }).collect()).collect();
    (m, exact)
}
fn angle(ctx: &mut Ctx) -> f64 {
    use std::f64::consts::PI;
    match ctx.rng.below(5) {
        0 => *ctx.rng.pick(&[0.0, PI, -PI, PI / 2.0, -PI / 2.0, 2.0 * PI, PI / 4.0, PI / 3.0, 1.0]),
        1 => ctx.rng.f(-40.0, 40.0),
        2 => ctx.rng.f(-1e-6, 1e-6),
        _ => ctx.rng.f(-PI, PI),
    }
}
fn val(ctx: &mut Ctx) -> f64 { let d = *ctx.rng.pick(&DISTS); coord_special(ctx, d) }
fn axis(ctx: &mut Ctx) -> (Norm3D, V) {
    loop {
        let p = if ctx.rng.chance(1, 3) { pt3(&mut ctx.rng, Dist::Grid) } else { pt3(&mut ctx.rng, Dist::Uniform) };
        if let Ok(n) = Norm3D::new(p) { let v = vec![n.x(), n.y(), n.z()]; return (n, v); }
    }
}
fn rotmat2(a: f64) -> M { vec![vec![a.cos(), -a.sin(), 0.0], vec![a.sin(), a.cos(), 0.0], vec![0.0, 0.0, 1.0]] }
/// rotation about coordinate axis k
fn rotmat3(k: usize, a: f64) -> M {
    let mut m = ident(4);
    let (i, j) = ((k + 1) % 3, (k + 2) % 3);
    m[i][i] = a.cos(); m[j][j] = a.cos(); m[i][j] = -a.sin(); m[j][i] = a.sin();
    m
}
fn crossv(a: &[f64], b: &[f64]) -> V { vec![a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn dotv(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(x, y)| x * y).sum() }
fn rodrigues(k: &[f64], a: f64) -> M {
    let mut m = ident(4);
    for c in 0..3 {
        let mut e = vec![0.0; 3];
        e[c] = 1.0;
        let kx = crossv(k, &e);
        let kd = dotv(k, &e);
        for r in 0..3 { m[r][c] = e[r] * a.cos() + kx[r] * a.sin() + k[r] * kd * (1.0 - a.cos()); }
    }
    m
}
fn transl(v: &[f64]) -> M { let n = v.len(); let mut m = ident(n + 1); for i in 0..n { m[i][n] = v[i]; } m }
fn scalem(v: &[f64]) -> M { let n = v.len(); let mut m = ident(n + 1); for i in 0..n { m[i][i] = v[i]; } m }

fn matrices(ctx: &mut Ctx) -> R {
    // products in every operand form
    for n in [3usize, 4] {
        let (a, ea) = rmat(ctx, n);
        let (mut b, mut eb) = rmat(ctx, n);
        // related factors: itself, its transpose, sharing rows
        match ctx.rng.below(12) {
            0 => { b = a.clone(); eb = ea; }
            1 => { for i in 0..n { for j in 0..n { b[i][j] = a[j][i]; } } eb = ea; }
            2 => { let k = ctx.rng.below(n); b[k] = a[k].clone(); eb = eb && ea; }
            _ => {}
        }
        let f = val(ctx);
        for r in &a { for x in r { ctx.fpf(*x); } }
        ctx.fpf(f);
        let want = mm(&a, &b);
        let sc = mmabs(&a, &b);
        let tol = if ea && eb { 0.0 } else { 1e-14 };
        let wf: M = a.iter().map(|r| r.iter().map(|x| x * f).collect()).collect();
        if n == 3 {
            let (x, y) = (to3(&a), to3(&b));
            same("Matrix3 * Matrix3", &m3(&(x.clone() * y.clone())), &want, &sc, tol)?;
            same("Matrix3 * &Matrix3", &m3(&(x.clone() * &y)), &want, &sc, tol)?;
            same("&Matrix3 * &Matrix3", &m3(&(&x * &y)), &want, &sc, tol)?;
            same("Matrix3 * f64", &m3(&(x.clone() * f)), &wf, &wf, 0.0)?;
            same("&Matrix3 * f64", &m3(&(&x * f)), &wf, &wf, 0.0)?;
        } else {
            let (x, y) = (to4(&a), to4(&b));
            same("Matrix4 * Matrix4", &m4(&(x.clone() * y.clone())), &want, &sc, tol)?;
            same("Matrix4 * &Matrix4", &m4(&(x.clone() * &y)), &want, &sc, tol)?;
            same("&Matrix4 * &Matrix4", &m4(&(&x * &y)), &want, &sc, tol)?;
            same("Matrix4 * f64", &m4(&(x.clone() * f)), &wf, &wf, 0.0)?;
            same("&Matrix4 * f64", &m4(&(&x * f)), &wf, &wf, 0.0)?;
        }
        ctx.count("matrix products", 3);
    }
    // constructors
    let (x, y, z) = (val(ctx), val(ctx), val(ctx));
    let (a, b, c) = (angle(ctx), angle(ctx), angle(ctx));
    ctx.fpf(x); ctx.fpf(a);
    let z3 = vec![vec![0.0; 3]; 3];
    let z4 = vec![vec![0.0; 4]; 4];
    same("Matrix3::identity", &m3(&Matrix3::identity()), &ident(3), &z3, 0.0)?;
    same("Matrix3::default", &m3(&Matrix3::default()), &ident(3), &z3, 0.0)?;
    same("Matrix3::zeroes", &m3(&Matrix3::zeroes()), &z3, &z3, 0.0)?;
    same("Matrix3::translation", &m3(&Matrix3::translation(x, y)), &transl(&[x, y]), &z3, 0.0)?;
    same("Matrix3::scale", &m3(&Matrix3::scale(x, y)), &scalem(&[x, y]), &z3, 0.0)?;
    same("Matrix3::rotation", &m3(&Matrix3::rotation(Rad(a))), &rotmat2(a), &ones(3), 1e-14)?;
    same("Matrix4::identity", &m4(&Matrix4::identity()), &ident(4), &z4, 0.0)?;
    same("Matrix4::default", &m4(&Matrix4::default()), &ident(4), &z4, 0.0)?;
    same("Matrix4::zeroes", &m4(&Matrix4::zeroes()), &z4, &z4, 0.0)?;
    same("Matrix4::translation", &m4(&Matrix4::translation(x, y, z)), &transl(&[x, y, z]), &z4, 0.0)?;
    same("Matrix4::scale", &m4(&Matrix4::scale(x, y, z)), &scalem(&[x, y, z]), &z4, 0.0)?;
    let rot = mm(&mm(&rotmat3(0, a), &rotmat3(1, b)), &rotmat3(2, c));
    same("Matrix4::rotation", &m4(&Matrix4::rotation(Rad(a), Rad(b), Rad(c))), &rot, &ones(4), 1e-13)?;
    let (n, k) = axis(ctx);
    same("Matrix4::rotation_axis", &m4(&Matrix4::rotation_axis(&n, Rad(a))), &rodrigues(&k, a), &ones(4), 1e-13)?;
    // a rotation keeps its axis
    let p = Point3D { x: k[0], y: k[1], z: k[2] }.multiply_m(&Matrix4::rotation_axis(&n, Rad(a)));
    ensure!(close(p.x, k[0], 1e-12) && close(p.y, k[1], 1e-12) && close(p.z, k[2], 1e-12), "rotation-axis", "axis {:?} is moved to {:?} by {:?}", k, p, a);
    look_at(ctx)?;
    Ok(())
}
fn look_at(ctx: &mut Ctx) -> R {
    let (up, u) = axis(ctx);
    let t = match ctx.rng.below(8) {
        0 => Point3D { x: 0.0, y: -0.0, z: 0.0 },
        1 => { let f = ctx.rng.f(-5.0, 5.0); Point3D { x: f * u[0], y: f * u[1], z: f * u[2] } }
        2 => pt3(&mut ctx.rng, Dist::Grid),
        _ => pt3(&mut ctx.rng, Dist::Uniform),
    };
    let tv = vec![t.x, t.y, t.z];
    for x in &tv { ctx.fpf(*x); }
    let l = dotv(&tv, &tv).sqrt();
    let m = match Matrix4::look_at(&t, &up) {
        Err(_) => {
            ensure!(l == 0.0, "look-at", "look_at refuses target {:?}", t);
            ctx.count("look at refused", 1);
            return Ok(());
        }
        Ok(m) => m4(&m),
    };
    ensure!(l > 0.0, "look-at", "look_at accepts the zero target");
    ctx.count("look at accepted", 1);
    let (r0, r1, r2) = (m[0][..3].to_vec(), m[1][..3].to_vec(), m[2][..3].to_vec());
    let tol = 1e-12 * (1.0 + l);
    for i in 0..3 { ensure!((r2[i] - tv[i] / l).abs() <= 1e-12, "look-at", "third row {:?} is not the direction of {:?}", r2, tv); }
    // first row is perpendicular to up and target, its direction is up x target; second completes the right handed frame
    let side = crossv(&u, &tv);
    for i in 0..3 { ensure!((r0[i] - side[i]).abs() <= tol, "look-at", "first row {:?} should be {:?}", r0, side); }
    let v = crossv(&r2, &r0);
    for i in 0..3 { ensure!((r1[i] - v[i]).abs() <= tol, "look-at", "second row {:?} should be {:?}", r1, v); }
    for i in 0..3 { ensure!(m[i][3] == 0.0 && m[3][i] == 0.0, "look-at", "look_at is not a pure linear map: {:?}", m); }
    ensure!(m[3][3] == 1.0, "look-at", "look_at {:?}", m);
    Ok(())
}

// ------------------------------------------------------------------ pipes
/// entries of a rotation are sums of parts up to 1, so their error doesn't shrink with them
fn turn(m: &M) -> M {
    let n = m.len() - 1;
    (0..=n).map(|i| (0..=n).map(|j| m[i][j].abs() + if i < n && j < n { 1e-3 } else { 0.0 }).collect()).collect()
}
fn pipes(ctx: &mut Ctx) -> R {
    let steps = 1 + ctx.rng.below(14);
    let mut p3 = Matrix3Pipe::default();
    let (mut t3, mut r3, mut s3) = (ident(3), ident(3), ident(3));
    let mut p4 = Matrix4Pipe::default();
    // perspective, look, camera, translation, rotation, scale
    let mut parts: Vec<M> = vec![ident(4); 6];
    let mut log = String::new();
    for _ in 0..steps {
        let op = ctx.rng.below(19);
        ctx.fpu(op as u64);
        let (x, y, z) = (val(ctx), val(ctx), val(ctx));
        let (a, b, c) = (angle(ctx), angle(ctx), angle(ctx));
        log.push_str(&format!("{}({:?},{:?},{:?};{:?},{:?},{:?}) ", op, x, y, z, a, b, c));
        match op {
            0 => { p3.add_translation(x, y); t3 = transl(&[x, y]); }
            1 => { p3.remove_translation(); t3 = ident(3); }
            2 => { p3.add_rotation(Rad(a)); r3 = rotmat2(a); }
            3 => { p3.remove_rotation(); r3 = ident(3); }
            4 => { p3.add_scale(x, y); s3 = scalem(&[x, y]); }
            5 => { p3.remove_scale(); s3 = ident(3); }
            6 => { p4.add_translation(x, y, z); parts[3] = transl(&[x, y, z]); }
            7 => { p4.remove_translation(); parts[3] = ident(4); }
            8 => { p4.add_rotation(Rad(a), Rad(b), Rad(c)); parts[4] = mm(&mm(&rotmat3(0, a), &rotmat3(1, b)), &rotmat3(2, c)); }
            9 => { let (n, k) = axis(ctx); p4.add_rotation_axis(&n, Rad(a)); parts[4] = rodrigues(&k, a); }
            10 => { p4.remove_rotation(); parts[4] = ident(4); }
            11 => { p4.add_scale(x, y, z); parts[5] = scalem(&[x, y, z]); }
            12 => { p4.remove_scale(); parts[5] = ident(4); }
            13 => {
                let (close, away, fov) = (ctx.rng.f(0.01, 2.0), ctx.rng.f(3.0, 100.0), ctx.rng.f(0.2, 2.5));
                p4.add_perspective(close, away, Rad(fov));
                parts[0] = m4(&Matrix4::perspective(close, away, Rad(fov)));
                // the planes that bound the view end up at the bounds of the depth, nothing mixes the axes
                let m = &parts[0];
                for (z, want) in [(close, -close), (away, away)].iter() {
                    let d = m[2][0] * x + m[2][1] * y + m[2][2] * z + m[2][3];
                    ensure!((d - want).abs() < 1e-9 * away * away, "perspective-depth", "perspective({:?},{:?},{:?}) maps the depth {:?} to {:?}", close, away, fov, z, d);
                }
                ensure!(m[0][1..] == [0.0; 3] && m[1][0] == 0.0 && m[1][2..] == [0.0; 2] && m[2][..2] == [0.0; 2] && m[3][..2] == [0.0; 2], "perspective-axes", "perspective({:?},{:?},{:?}) mixes the axes: {:?}", close, away, fov, m);
                ensure!((m[1][1] * (fov / 2.0).tan() - 1.0).abs() < 1e-9, "perspective-height", "perspective({:?},{:?},{:?}) scales the height by {:?}", close, away, fov, m[1][1]);
                ensure!((m[0][0] * (fov / 2.0).tan() * away - 1.0).abs() < 1e-9, "perspective-width", "perspective({:?},{:?},{:?}) scales the width by {:?}", close, away, fov, m[0][0]);
                ctx.count("perspectives", 1);
            }
            14 => { p4.remove_perspective(); parts[0] = ident(4); }
            15 => { p4.add_camera_translation(x, y, z); parts[2] = transl(&[-x, -y, -z]); }
            16 => { p4.remove_camera_translation(); parts[2] = ident(4); }
            17 => {
                let (n, _) = axis(ctx);
                let t = if ctx.rng.chance(1, 6) { Point3D { x: 0.0, y: 0.0, z: 0.0 } } else { Point3D { x, y, z } };
                let zero = t.x == 0.0 && t.y == 0.0 && t.z == 0.0;
                let r = p4.add_look_at(&t, &n);
                ensure!(r.is_err() == zero, "pipe-look-at", "add_look_at({:?}) gives {:?}", t, r.is_ok());
                // a refused target leaves the pipe as it was
                if !zero { parts[1] = m4(&Matrix4::look_at(&t, &n).unwrap()); }
            }
            _ => { p4.remove_look_at(); parts[1] = ident(4); }
        }
        ctx.count("pipe operations", 1);
        let want3 = mm(&mm(&t3, &r3), &s3);
        let sc3 = mmabs(&mmabs(&t3, &turn(&r3)), &s3);
        same(&format!("Matrix3Pipe after {}", log), &m3(&p3.result()), &want3, &sc3, 1e-12)?;
        let (mut w, mut s) = (ident(4), ident(4));
        for (i, p) in parts.iter().enumerate() { w = mm(&w, p); s = mmabs(&s, &if i == 4 { turn(p) } else { p.clone() }); }
        same(&format!("Matrix4Pipe after {}", log), &m4(&p4.result()), &w, &s.iter().map(|r| r.iter().map(|x| x + 1e-300).collect()).collect(), 1e-11)?;
    }
    // order of application, observed on a position
    let q = pt3(&mut ctx.rng, Dist::Uniform);
    let got = q.multiply_m(&p4.result());
    let mut cur = (vec![q.x, q.y, q.z], vec![q.x.abs(), q.y.abs(), q.z.abs()]);
    for p in parts.iter().rev() {
        if p[3] != vec![0.0, 0.0, 0.0, 1.0] { return Ok(()); } // perspective: positions are not divided
        let n = apply(p, &cur.0);
        let s = apply(&p.iter().map(|r| r.iter().map(|x| x.abs()).collect()).collect(), &cur.1);
        cur = (n.0, s.0);
    }
    for (i, g) in [got.x, got.y, got.z].iter().enumerate() {
        ensure!((g - cur.0[i]).abs() <= 1e-11 * cur.1[i], "pipe-order", "position {:?} through the pipe gives {:?}, step by step {:?} ({})", q, got, cur.0, log);
    }
    Ok(())
}

// ------------------------------------------------------------------ objects
fn p2(v: &[f64]) -> Point2D { Point2D { x: v[0], y: v[1] } }
fn p3(v: &[f64]) -> Point3D { Point3D { x: v[0], y: v[1], z: v[2] } }
fn v2<P: Is2D>(p: &P) -> V { vec![p.x(), p.y()] }
fn v3<P: Is3D>(p: &P) -> V { vec![p.x(), p.y(), p.z()] }

fn same_pts(what: &str, got: &[V], want: &[V], mag: f64, tol: f64) -> R {
    ensure!(got.len() == want.len(), "positions", "{}: {} positions instead of {}", what, got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        for (d, (a, b)) in g.iter().zip(w).enumerate() {
            ensure!(a == b || (a - b).abs() <= tol * mag, "positions", "{}: position {} has {:?} in dimension {}, should be {:?}", what, i, a, d, b);
        }
    }
    Ok(())
}
fn magn(p: &[V]) -> f64 { p.iter().flatten().fold(0.0, |m: f64, x| m.max(x.abs())) }
fn bounds(p: &[V]) -> Option<(V, V)> {
    if p.len() < 2 { return None; }
    let n = p[0].len();
    let lo: V = (0..n).map(|d| p.iter().fold(f64::INFINITY, |m, x| m.min(x[d]))).collect();
    let hi: V = (0..n).map(|d| p.iter().fold(f64::NEG_INFINITY, |m, x| m.max(x[d]))).collect();
    if (0..n).all(|d| hi[d] > lo[d]) { Some((lo, hi)) } else { None }
}
fn shift(p: &[V], d: &[f64]) -> Vec<V> { p.iter().map(|x| x.iter().zip(d).map(|(a, b)| a + b).collect()).collect() }
/// scaling about the center of the bounding box
fn scaled(p: &[V], f: f64) -> Option<Vec<V>> {
    let (lo, hi) = bounds(p)?;
    Some(p.iter().map(|x| (0..x.len()).map(|d| { let c = lo[d] / 2.0 + hi[d] / 2.0; c + f * (x[d] - c) }).collect()).collect())
}
fn moved2<T: IsMovable2D>(ctx: &mut Ctx, what: &str, mut o: T, pos: impl Fn(&T) -> Vec<V>, fixed: impl Fn(&T) -> V) -> R {
    let (b, fb) = (pos(&o), fixed(&o));
    let d = vec![val(ctx), val(ctx)];
    o.move_by(d[0], d[1]);
    let m = magn(&b) + magn(&[d.clone()]);
    same_pts(&format!("{} moved by {:?}", what, d), &pos(&o), &shift(&b, &d), m, 4e-16)?;
    ensure!(fixed(&o) == fb, "moved", "{} moved by {:?}: sizes or directions {:?} became {:?}", what, d, fb, fixed(&o));
    ctx.count("moves", 1);
    Ok(())
}
fn moved3<T: IsMovable3D>(ctx: &mut Ctx, what: &str, mut o: T, tol: f64, pos: impl Fn(&T) -> Vec<V>, fixed: impl Fn(&T) -> V) -> R {
    let (b, fb) = (pos(&o), fixed(&o));
    let d = vec![val(ctx), val(ctx), val(ctx)];
    o.move_by(d[0], d[1], d[2]);
    let m = magn(&b) + magn(&[d.clone()]);
    same_pts(&format!("{} moved by {:?}", what, d), &pos(&o), &shift(&b, &d), m, tol)?;
    ensure!(fixed(&o) == fb, "moved", "{} moved by {:?}: sizes or directions {:?} became {:?}", what, d, fb, fixed(&o));
    ctx.count("moves", 1);
    Ok(())
}
fn scaled_obj<T: IsScalable>(ctx: &mut Ctx, what: &str, mut o: T, pos: impl Fn(&T) -> Vec<V>, fixed: impl Fn(&T) -> Vec<usize>) -> R {
    let (b, fb) = (pos(&o), fixed(&o));
    let f = if ctx.rng.chance(1, 4) { *ctx.rng.pick(&[1.0, 2.0, 0.5]) } else { ctx.rng.f(0.01, 10.0) };
    o.scale(self::pos(f));
    ensure!(fixed(&o) == fb, "scaled", "{}: scaling changes ids", what);
    if let Some(w) = scaled(&b, f) {
        same_pts(&format!("{} scaled by {:?}", what, f), &pos(&o), &w, magn(&b) * (1.0 + f), 1e-14)?;
        ctx.count("scalings about the center", 1);
    }
    Ok(())
}
fn transformed2<T: IsMatrix3Transformable>(ctx: &mut Ctx, what: &str, mut o: T, pos: impl Fn(&T) -> Vec<V>) -> R {
    let m = rmat(ctx, 3).0;
    let b = pos(&o);
    let n = o.transformed(&to3(&m));
    same_pts(&format!("{} after transformed() itself", what), &pos(&o), &b, 0.0, 0.0)?;
    check_map(what, &m, &b, &pos(&n))?;
    o.transform(&to3(&m));
    check_map(what, &m, &b, &pos(&o))?;
    ctx.count("transformations", 2);
    Ok(())
}
fn transformed3<T: IsMatrix4Transformable>(ctx: &mut Ctx, what: &str, mut o: T, pos: impl Fn(&T) -> Vec<V>, fixed: impl Fn(&T) -> Vec<usize>) -> R {
    let m = rmat(ctx, 4).0;
    let (b, fb) = (pos(&o), fixed(&o));
    let n = o.transformed(&to4(&m));
    same_pts(&format!("{} after transformed() itself", what), &pos(&o), &b, 0.0, 0.0)?;
    check_map(what, &m, &b, &pos(&n))?;
    o.transform(&to4(&m));
    check_map(what, &m, &b, &pos(&o))?;
    ensure!(fixed(&n) == fb && fixed(&o) == fb, "transformed", "{}: transforming changes ids", what);
    ctx.count("transformations", 2);
    Ok(())
}
fn check_map(what: &str, m: &M, before: &[V], after: &[V]) -> R {
    ensure!(before.len() == after.len(), "transformed", "{}: {} positions became {}", what, before.len(), after.len());
    for (b, a) in before.iter().zip(after) {
        let (w, s) = apply(m, b);
        for d in 0..w.len() {
            ensure!(a[d] == w[d] || (a[d] - w[d]).abs() <= 1e-14 * s[d], "transformed", "{}: {:?} transformed by {:?} gives {:?}, should be {:?}", what, b, m, a, w);
        }
    }
    Ok(())
}
fn centered<T: HasBoundingBox3DMaybe + IsMovable3D>(ctx: &mut Ctx, what: &str, mut o: T, pos: impl Fn(&T) -> Vec<V>) -> R {
    let b = pos(&o);
    center(&mut o);
    if let Some((lo, hi)) = bounds(&b) {
        let c: V = lo.iter().zip(&hi).map(|(a, b)| -(a / 2.0 + b / 2.0)).collect();
        same_pts(&format!("{} centered", what), &pos(&o), &shift(&b, &c), magn(&b), 1e-14)?;
        ctx.count("centered", 1);
    }
    Ok(())
}
fn sized<T: HasBoundingBox3DMaybe + IsMatrix4Transformable>(ctx: &mut Ctx, what: &str, mut o: T, pos: impl Fn(&T) -> Vec<V>) -> R {
    let b = pos(&o);
    let mut s = [ctx.rng.f(0.01, 100.0), ctx.rng.f(0.01, 100.0), ctx.rng.range(1, 9) as f64];
    if ctx.rng.chance(1, 3) {
        // some sizes as they are
        if let Some((lo, hi)) = bounds(&b) { for d in 0..3 { if ctx.rng.chance(1, 2) && hi[d] > lo[d] { s[d] = hi[d] - lo[d]; ctx.count("sizes kept", 1); } } }
    }
    set_size(&mut o, [self::pos(s[0]), self::pos(s[1]), self::pos(s[2])]);
    if let Some((lo, hi)) = bounds(&b) {
        // absorbed extents are not of interest
        if (0..3).any(|d| hi[d] - lo[d] < 1e-9 * (hi[d].abs() + lo[d].abs())) { return Ok(()); }
        let a = pos(&o);
        let (l2, h2) = match bounds(&a) { Some(x) => x, None => return fail("size", format!("{} has no extent after set_size {:?}", what, s)) };
        for d in 0..3 {
            let f = s[d] / (hi[d] - lo[d]);
            let mag = f * (hi[d].abs() + lo[d].abs());
            ensure!((h2[d] - l2[d] - s[d]).abs() <= 1e-13 * (mag + s[d]), "size", "{}: size {} is {:?} after set_size {:?}", what, d, h2[d] - l2[d], s);
            for (x, y) in b.iter().zip(&a) { ensure!((y[d] - f * x[d]).abs() <= 1e-13 * (mag + s[d]), "size", "{}: set_size moves {:?} to {:?}, factor {:?}", what, x, y, f); }
        }
        ctx.count("resized", 1);
    }
    Ok(())
}
type Mesh = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
fn mesh_pos<T: IsMesh<Point3D, Face3>>(m: &T) -> Vec<V> { (0..m.num_vertices()).map(|i| v3(&m.vertex(VId(i)).unwrap())).collect() }
fn mesh_ids<T: IsMesh<Point3D, Face3>>(m: &T) -> Vec<usize> { (0..m.num_faces()).flat_map(|i| { let f = m.face_vertex_ids(FId(i)).unwrap(); vec![f.a.0, f.b.0, f.c.0] }).collect() }
fn noids<T>(_: &T) -> Vec<usize> { vec![] }
fn nofix<T>(_: &T) -> V { vec![] }

fn objects3(ctx: &mut Ctx) -> R {
    let d = *ctx.rng.pick(&DISTS);
    let n = size(ctx, 60);
    let pts = cloud3(ctx, n, d);
    fp3(ctx, &pts);
    let cloud = PointCloud3D { data: pts.clone() };
    let cpos = |c: &PointCloud3D<Point3D>| c.data.iter().map(v3).collect::<Vec<V>>();
    let poly = Polygon3D::from(cloud.clone());
    let ppos = |p: &Polygon3D<Point3D>| (0..n).map(|i| v3(&p.vertex(VId(i)).unwrap())).collect::<Vec<V>>();
    let (s, e) = (pt3(&mut ctx.rng, d), pt3(&mut ctx.rng, d));
    let seg = LineSegment3D::new(s.clone(), e.clone());
    let spos = |s: &LineSegment3D| vec![v3(&s.start), v3(&s.end)];
    let mut mesh: Mesh = Mesh3D::default();
    for p in &pts { mesh.add_vertex(p.clone()); }
    if n >= 3 { for _ in 0..n { let mut f: Vec<usize> = (0..n).collect(); ctx.rng.shuffle(&mut f); mesh.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).unwrap(); } }
    let (nv, _) = axis(ctx);
    let line = Line3D::new(s.clone(), nv.clone());
    let dirv = |l: &Line3D| vec![l.dir.x(), l.dir.y(), l.dir.z()];

    transformed3(ctx, "point", s.clone(), |p| vec![v3(p)], noids)?;
    transformed3(ctx, "cloud", cloud.clone(), cpos, noids)?;
    transformed3(ctx, "polygon", poly.clone(), ppos, noids)?;
    transformed3(ctx, "segment", seg.clone(), spos, noids)?;
    transformed3(ctx, "mesh", mesh.clone(), mesh_pos, mesh_ids)?;

    scaled_obj(ctx, "cloud", cloud.clone(), cpos, noids)?;
    scaled_obj(ctx, "polygon", poly.clone(), ppos, noids)?;
    scaled_obj(ctx, "segment", seg.clone(), spos, noids)?;
    scaled_obj(ctx, "mesh", mesh.clone(), mesh_pos, mesh_ids)?;
    if n < 20 { scaled_obj(ctx, "searchable mesh", SearchableMesh::<_, _, Vec<usize>>::new(mesh.clone()), mesh_pos, mesh_ids)?; }

    let e16 = 4e-16;
    moved3(ctx, "point", s.clone(), e16, |p| vec![v3(p)], nofix)?;
    moved3(ctx, "cloud", cloud.clone(), e16, cpos, nofix)?;
    moved3(ctx, "polygon", poly.clone(), e16, ppos, nofix)?;
    moved3(ctx, "segment", seg.clone(), e16, spos, nofix)?;
    moved3(ctx, "mesh", mesh.clone(), e16, mesh_pos, |m| mesh_ids(m).iter().map(|x| *x as f64).collect())?;
    moved3(ctx, "line", line.clone(), e16, |l| vec![v3(&l.anchor)], dirv)?;
    moved3(ctx, "ray", Ray3D::new(line.clone()), e16, |l| vec![v3(&l.line.anchor)], |l| dirv(&l.line))?;
    moved3(ctx, "vec", pts.clone(), e16, |v: &Vec<Point3D>| v.iter().map(v3).collect(), nofix)?;
    moved3(ctx, "deque", pts.iter().cloned().collect::<VecDeque<_>>(), e16, |v| v.iter().map(v3).collect(), nofix)?;
    moved3(ctx, "list", pts.iter().cloned().collect::<LinkedList<_>>(), e16, |v| v.iter().map(v3).collect(), nofix)?;
    let mut c32: PointCloud3Df32<Point3D> = PointCloud3Df32::new();
    for p in &pts { c32.push(p.clone()); }
    moved3(ctx, "f32 cloud", c32, 3e-7, |c| c.data.chunks(3).map(|x| x.iter().map(|y| *y as f64).collect()).collect(), nofix)?;
    let sz = [ctx.rng.f(0.01, 50.0), ctx.rng.f(0.01, 50.0), ctx.rng.f(0.01, 50.0)];
    let b = Box3D { center: s.clone(), size_x: pos(sz[0]), size_y: pos(sz[1]), size_z: pos(sz[2]) };
    let bsz = |b: &Box3D| vec![*b.size_x, *b.size_y, *b.size_z];
    moved3(ctx, "box", b.clone(), e16, |b| vec![v3(&b.center)], bsz)?;
    let un = BoxUnaligned3D::new_from_z_rotation(&s, [pos(sz[0]), pos(sz[1]), pos(sz[2])], angle(ctx));
    moved3(ctx, "unaligned box", un, e16, |b| vec![v3(&b.center)], |b| vec![*b.size[0], *b.size[1], *b.size[2], b.y_dir.x(), b.y_dir.y(), b.z_dir.x(), b.z_dir.z(), b.x_dir().x(), b.x_dir().y()])?;
    if let Ok(bb) = BoundingBox3D::new(&p3(&[s.x.min(e.x), s.y.min(e.y), s.z.min(e.z)]), &p3(&[s.x.max(e.x), s.y.max(e.y), s.z.max(e.z)])) {
        moved3(ctx, "bounding box", bb, e16, |b| vec![v3(&b.min_p()), v3(&b.max_p())], nofix)?;
    }
    // solids scale about their own center
    let f = ctx.rng.f(0.01, 10.0);
    let mut b2 = b.clone();
    b2.scale(pos(f));
    ensure!(v3(&b2.center) == v3(&b.center), "solid-scale", "scaling the box moves its center from {:?} to {:?}", b.center, b2.center);
    for (x, y) in bsz(&b2).iter().zip(bsz(&b)) { ensure!(near(*x, y * f, 1e-15), "solid-scale", "size {:?} scaled by {:?} is {:?}", y, f, x); }
    let mut sp = Sphere { center: s.clone(), radius: pos(sz[0]) };
    sp.scale(pos(f));
    ensure!(v3(&sp.center) == v3(&s) && near(*sp.radius, sz[0] * f, 1e-15), "solid-scale", "sphere {:?} {:?} scaled by {:?} is {:?}", s, sz[0], f, sp);
    let mut fs = FilterSphere::new(Sphere { center: s.clone(), radius: pos(sz[0]) });
    fs.scale(pos(f));
    ensure!(fs == FilterSphere::new(sp.clone()), "solid-scale", "scaled sphere filter {:?}, should be {:?}", fs, sp);
    let mut fb = FilterBox3D::new(b.clone());
    fb.scale(pos(f));
    ensure!(fb == FilterBox3D::new(b2.clone()), "solid-scale", "scaled box filter {:?}, should be {:?}", fb, b2);

    centered(ctx, "cloud", cloud.clone(), cpos)?;
    centered(ctx, "polygon", poly.clone(), ppos)?;
    centered(ctx, "segment", seg.clone(), spos)?;
    centered(ctx, "mesh", mesh.clone(), mesh_pos)?;
    sized(ctx, "cloud", cloud.clone(), cpos)?;
    sized(ctx, "polygon", poly.clone(), ppos)?;
    sized(ctx, "segment", seg.clone(), spos)?;
    sized(ctx, "mesh", mesh.clone(), mesh_pos)?;
    Ok(())
}

fn objects2(ctx: &mut Ctx) -> R {
    let d = *ctx.rng.pick(&DISTS);
    let n = size(ctx, 60);
    let pts = cloud2(ctx, n, d);
    fp2(ctx, &pts);
    let cloud = PointCloud2D { data: pts.clone() };
    let cpos = |c: &PointCloud2D<Point2D>| c.data.iter().map(v2).collect::<Vec<V>>();
    let poly = Polygon2D::from(cloud.clone());
    let ppos = |p: &Polygon2D<Point2D>| (0..n).map(|i| v2(&p.vertex(VId(i)).unwrap())).collect::<Vec<V>>();
    let (s, e) = (pt2(&mut ctx.rng, d), pt2(&mut ctx.rng, d));
    let seg = LineSegment2D::new(s.clone(), e.clone());
    let spos = |s: &LineSegment2D| vec![v2(&s.start), v2(&s.end)];
    let nv = loop { if let Ok(n) = Norm2D::new(pt2(&mut ctx.rng, Dist::Uniform)) { break n; } };
    let line = Line2D::new(s.clone(), nv);
    let dirv = |l: &Line2D| vec![l.dir.x(), l.dir.y()];
    transformed2(ctx, "2D point", s.clone(), |p| vec![v2(p)])?;
    transformed2(ctx, "2D cloud", cloud.clone(), cpos)?;
    transformed2(ctx, "2D polygon", poly.clone(), ppos)?;
    transformed2(ctx, "2D segment", seg.clone(), spos)?;
    scaled_obj(ctx, "2D cloud", cloud.clone(), cpos, noids)?;
    scaled_obj(ctx, "2D polygon", poly.clone(), ppos, noids)?;
    scaled_obj(ctx, "2D segment", seg.clone(), spos, noids)?;
    moved2(ctx, "2D point", s.clone(), |p| vec![v2(p)], nofix)?;
    moved2(ctx, "2D cloud", cloud.clone(), cpos, nofix)?;
    moved2(ctx, "2D polygon", poly.clone(), ppos, nofix)?;
    moved2(ctx, "2D segment", seg.clone(), spos, nofix)?;
    moved2(ctx, "2D line", line.clone(), |l| vec![v2(&l.anchor)], dirv)?;
    moved2(ctx, "2D ray", Ray2D::new(line.clone()), |l| vec![v2(&l.line.anchor)], |l| dirv(&l.line))?;
    moved2(ctx, "2D vec", pts.clone(), |v: &Vec<Point2D>| v.iter().map(v2).collect(), nofix)?;
    moved2(ctx, "2D deque", pts.iter().cloned().collect::<VecDeque<_>>(), |v| v.iter().map(v2).collect(), nofix)?;
    moved2(ctx, "2D list", pts.iter().cloned().collect::<LinkedList<_>>(), |v| v.iter().map(v2).collect(), nofix)?;
    let sz = [ctx.rng.f(0.01, 50.0), ctx.rng.f(0.01, 50.0)];
    let b = Box2D { center: s.clone(), size_x: pos(sz[0]), size_y: pos(sz[1]) };
    moved2(ctx, "2D box", b.clone(), |b| vec![v2(&b.center)], |b| vec![*b.size_x, *b.size_y])?;
    if let Ok(bb) = BoundingBox2D::new(&p2(&[s.x.min(e.x), s.y.min(e.y)]), &p2(&[s.x.max(e.x), s.y.max(e.y)])) {
        moved2(ctx, "2D bounding box", bb, |b| vec![v2(&b.min_p()), v2(&b.max_p())], nofix)?;
    }
    let f = ctx.rng.f(0.01, 10.0);
    let mut b2 = b.clone();
    b2.scale(pos(f));
    ensure!(v2(&b2.center) == v2(&b.center) && near(*b2.size_x, sz[0] * f, 1e-15) && near(*b2.size_y, sz[1] * f, 1e-15), "solid-scale", "box {:?} scaled by {:?} is {:?}", b, f, b2);
    let mut c = Circle { center: s.clone(), radius: pos(sz[0]) };
    c.scale(pos(f));
    ensure!(v2(&c.center) == v2(&s) && near(*c.radius, sz[0] * f, 1e-15), "solid-scale", "circle {:?} {:?} scaled by {:?} is {:?}", s, sz[0], f, c);
    let mut fc = FilterCircle::new(Circle { center: s.clone(), radius: pos(sz[0]) });
    fc.scale(pos(f));
    ensure!(fc == FilterCircle::new(c.clone()), "solid-scale", "scaled circle filter {:?}, should be {:?}", fc, c);
    let mut fb = FilterBox2D::new(b.clone());
    fb.scale(pos(f));
    ensure!(fb == FilterBox2D::new(b2.clone()), "solid-scale", "scaled box filter {:?}, should be {:?}", fb, b2);

    // extrusion
    let dir = pt3(&mut ctx.rng, d);
    let (lo, hi) = extrude(&pts, &dir);
    let w: Vec<V> = pts.iter().map(|p| vec![p.x, p.y, 0.0]).collect();
    same_pts("extrude, start", &lo.data.iter().map(v3).collect::<Vec<_>>(), &w, 0.0, 0.0)?;
    same_pts("extrude, end", &hi.data.iter().map(v3).collect::<Vec<_>>(), &shift(&w, &v3(&dir)), magn(&w) + magn(&[v3(&dir)]), 4e-16)?;
    ctx.count("extrusions", 1);
    // position arithmetic
    let (p, q, r) = (s, e, pt2(&mut ctx.rng, d));
    let (a, f) = (angle(ctx), ctx.rng.f(0.01, 10.0));
    let mut x = p.clone();
    x.rotate(Rad(a), &q);
    let (dx, dy) = (p.x - q.x, p.y - q.y);
    let m = q.x.abs() + q.y.abs() + dx.abs() + dy.abs();
    let w = vec![q.x + a.cos() * dx - a.sin() * dy, q.y + a.sin() * dx + a.cos() * dy];
    same_pts(&format!("{:?} rotated by {:?} about {:?}", p, a, q), &[v2(&x)], &[w], m, 1e-14)?;
    let mut x = p.clone();
    x.increase_distance_to_by(&q, pos(f));
    same_pts(&format!("{:?}, distance to {:?} increased by {:?}", p, q, f), &[v2(&x)], &[vec![q.x + f * dx, q.y + f * dy]], m * (1.0 + f), 1e-15)?;
    let mut x = p.clone();
    IsEditable2D::add(&mut x, &r);
    IsEditable2D::subtract(&mut x, &q);
    same_pts("add, subtract", &[v2(&x)], &[vec![p.x + r.x - q.x, p.y + r.y - q.y]], 0.0, 0.0)?;
    x.scale_pos(f);
    same_pts("scale_pos", &[v2(&x)], &[vec![f * (p.x + r.x - q.x), f * (p.y + r.y - q.y)]], 0.0, 0.0)?;
    let sum = vec![p.x + q.x, p.y + q.y];
    let dif = vec![p.x - q.x, p.y - q.y];
    for (n, g, w) in [
        ("p + q", v2(&(p.clone() + q.clone())), sum.clone()), ("&p + &q", v2(&(&p + &q)), sum.clone()), ("&p + q", v2(&(&p + q.clone())), sum.clone()),
        ("p - q", v2(&(p.clone() - q.clone())), dif.clone()), ("&p - &q", v2(&(&p - &q)), dif.clone()), ("&p - q", v2(&(&p - q.clone())), dif.clone()),
        ("p * f", v2(&(p.clone() * f)), vec![p.x * f, p.y * f]), ("&p * f", v2(&(&p * f)), vec![p.x * f, p.y * f]),
        ("p / f", v2(&(p.clone() / f)), vec![p.x / f, p.y / f]), ("&p / f", v2(&(&p / f)), vec![p.x / f, p.y / f]),
        ("-p", v2(&-p.clone()), vec![-p.x, -p.y]), ("-&p", v2(&-&p), vec![-p.x, -p.y]),
        ("to 3D", v3(&p.transform_to_3d::<Point3D>(f)), vec![p.x, p.y, f]),
    ] { same_pts(&format!("{} with {:?} {:?} {:?}", n, p, q, f), &[g], &[w], 0.0, 0.0)?; }
    ctx.count("position arithmetic", 18);
    // and in 3D
    let (p, q, r) = (pt3(&mut ctx.rng, d), pt3(&mut ctx.rng, d), pt3(&mut ctx.rng, d));
    let dv = vec![p.x - q.x, p.y - q.y, p.z - q.z];
    let m = magn(&[v3(&p), v3(&q)]) * 2.0;
    let mut x = p.clone();
    x.increase_distance_to_by(&q, pos(f));
    same_pts(&format!("{:?}, distance to {:?} increased by {:?}", p, q, f), &[v3(&x)], &[vec![q.x + f * dv[0], q.y + f * dv[1], q.z + f * dv[2]]], m * (1.0 + f), 1e-15)?;
    let mut x = p.clone();
    IsEditable3D::add(&mut x, &r);
    IsEditable3D::subtract(&mut x, &q);
    let t = vec![p.x + r.x - q.x, p.y + r.y - q.y, p.z + r.z - q.z];
    same_pts("add, subtract", &[v3(&x)], &[t.clone()], 0.0, 0.0)?;
    x.scale_pos(f);
    same_pts("scale_pos", &[v3(&x)], &[t.iter().map(|x| f * x).collect()], 0.0, 0.0)?;
    let sum = vec![p.x + q.x, p.y + q.y, p.z + q.z];
    let cr = crossv(&v3(&p), &v3(&q));
    for (n, g, w) in [
        ("p + q", v3(&(p.clone() + q.clone())), sum.clone()), ("&p + &q", v3(&(&p + &q)), sum.clone()), ("&p + q", v3(&(&p + q.clone())), sum.clone()),
        ("p - q", v3(&(p.clone() - q.clone())), dv.clone()), ("&p - &q", v3(&(&p - &q)), dv.clone()), ("&p - q", v3(&(&p - q.clone())), dv.clone()),
        ("p * f", v3(&(p.clone() * f)), vec![p.x * f, p.y * f, p.z * f]), ("&p * f", v3(&(&p * f)), vec![p.x * f, p.y * f, p.z * f]),
        ("p / f", v3(&(p.clone() / f)), vec![p.x / f, p.y / f, p.z / f]), ("&p / f", v3(&(&p / f)), vec![p.x / f, p.y / f, p.z / f]),
        ("-p", v3(&-p.clone()), vec![-p.x, -p.y, -p.z]), ("-&p", v3(&-&p), vec![-p.x, -p.y, -p.z]),
        ("conn(q, p)", v3(&conn(&q, &p)), dv.clone()),
        ("to 2D", { let t: Point2D = p.transform_to_2d(); v2(&t) }, vec![p.x, p.y]),
    ] { same_pts(&format!("{} with {:?} {:?} {:?}", n, p, q, f), &[g], &[w], 0.0, 0.0)?; }
    same_pts(&format!("cross of {:?} {:?}", p, q), &[v3(&cross(&p, &q))], &[cr], magn(&[v3(&p)]) * magn(&[v3(&q)]), 1e-15)?;
    ctx.count("position arithmetic", 18);
    Ok(())
}

fn c22(ctx: &mut Ctx) -> R {
    match ctx.rng.below(5) {
        0 => { if ctx.want_desc { ctx.desc = "matrices".into(); } matrices(ctx)? }
        1 => { if ctx.want_desc { ctx.desc = "pipes".into(); } pipes(ctx)? }
        2 | 3 => { if ctx.want_desc { ctx.desc = "objects 3D".into(); } objects3(ctx)? }
        _ => { if ctx.want_desc { ctx.desc = "objects 2D".into(); } objects2(ctx)? }
    }
    ctx.nontrivial = true;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22", rule: "every matrix, pipe result and every position of every transformed, moved, scaled, centered or resized object equals the independently computed affine image",
        quick: 900_000, thorough: 20_000_000, run: c22, probes: &[],
        must_see: &["matrix products", "look at refused", "look at accepted", "pipe operations", "perspectives", "moves", "scalings about the center", "transformations", "centered", "resized", "extrusions", "position arithmetic"],
        assumptions: &["magnitudes up to 1e7; tolerance of a few units in the last place of the largest term", "perspective: positions are not divided by their fourth coordinate, as in the code"], level: "exploration",
    }]
}
