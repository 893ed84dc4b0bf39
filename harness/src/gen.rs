//! Input generators shared by the monitors.
use crate::core::*;
use rust_3d::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dist {
    Grid,    // tiny integer grid: many ties, duplicates, collinear sets
    Dyadic,  // multiples of 1/8: exact arithmetic
    Uniform, // [-100, 100]
    Cluster, // few tight clusters
    Wide,    // magnitudes 1e-6 .. 1e6
    Lattice, // larger integer lattice, exact arithmetic
    Small,   // tiny integer grid scaled down: everything within 1e-7
    Large,   // integer lattice scaled up: millions
    Tiny,    // integer lattice scaled by 2^-80
    Huge,    // integer lattice scaled by 2^60
}
pub const DISTS: [Dist; 10] = [Dist::Grid, Dist::Dyadic, Dist::Uniform, Dist::Cluster, Dist::Wide, Dist::Lattice, Dist::Small, Dist::Large, Dist::Tiny, Dist::Huge];

/// a natural unit of lengths of the distribution (a power of two)
pub fn unit(d: Dist) -> f64 { match d { Dist::Small => 1.0 / 67108864.0, Dist::Large => 4096.0, Dist::Tiny => TINY, Dist::Huge => HUGE, _ => 1.0 } }
pub const TINY: f64 = 1.0 / (1099511627776.0 * 1099511627776.0);
pub const HUGE: f64 = 1048576.0 * 1048576.0 * 1048576.0;


pub fn coord(r: &mut Rng, d: Dist) -> f64 {
    match d {
        Dist::Grid => r.range(-3, 3) as f64,
        Dist::Dyadic => r.range(-400, 400) as f64 / 8.0,
        Dist::Uniform => r.f(-100.0, 100.0),
        Dist::Cluster => *r.pick(&[-50.0, 0.0, 1.0, 70.0]) + r.f(-1.0, 1.0) * 0.01,
        Dist::Wide => {
            let e = r.range(-6, 6);
            r.f(-10.0, 10.0) * 10f64.powi(e as i32)
        }
        Dist::Lattice => r.range(-1000, 1000) as f64,
        Dist::Small => r.range(-8, 8) as f64 / 67108864.0,
        Dist::Large => r.range(-1000, 1000) as f64 * 4096.0,
        Dist::Tiny => r.range(-100, 100) as f64 * TINY,
        Dist::Huge => r.range(-100, 100) as f64 * HUGE,
    }
}
/// a coordinate that may also hit special values and literals of the sources
pub fn coord_special(ctx: &mut Ctx, d: Dist) -> f64 {
    if !matches!(d, Dist::Small | Dist::Large | Dist::Tiny | Dist::Huge) && ctx.rng.chance(1, 24) {
        let v = match ctx.rng.below(8) {
            0 => 0.0,
            1 => -0.0,
            2 => 1.0,
            3 => -1.0,
            4 => 0.5,
            5 => 1e-9,
            6 => 123456.789,
            _ => {
                if ctx.dict.floats.is_empty() { 2.0 } else { let i = ctx.rng.below(ctx.dict.floats.len()); ctx.dict.floats[i] }
            }
        };
        if v.abs() <= 1e7 { return v; }
    }
    coord(&mut ctx.rng, d)
}

/// any finite f64 with a wide variety of exponents / representations
pub fn any_finite(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => r.range(-10, 10) as f64,
        3 => r.range(-1_000_000, 1_000_000) as f64 / 1000.0,
        4 => f64::MIN_POSITIVE * r.range(1, 9) as f64,
        5 => f64::from_bits(r.u64() & 0x000f_ffff_ffff_ffff | if r.bool() { 1 << 63 } else { 0 }),
        6 => f64::MAX * if r.bool() { 1.0 } else { -1.0 },
        7 => r.range(i64::MIN / 2, i64::MAX / 2) as f64,
        8 => (r.f(-1.0, 1.0) as f32) as f64,
        9 => r.f(-1000.0, 1000.0),
        _ => loop {
            let x = f64::from_bits(r.u64());
            if x.is_finite() { break x; }
        },
    }
}

/// number of elements: mostly small, with boundary sizes and source literals mixed in
pub fn size(ctx: &mut Ctx, max: usize) -> usize {
    let r = ctx.rng.below(20);
    if ctx.tiny { return ctx.rng.below(8).min(max); }
    let n = match r {
        0..=8 => ctx.rng.below(9),
        9..=13 => ctx.rng.below(40),
        14..=15 => {
            let k = 1usize << ctx.rng.below(12);
            (k + ctx.rng.below(3)).saturating_sub(1)
        }
        16 => {
            if ctx.dict.ints.is_empty() { 5 } else {
                let i = ctx.rng.below(ctx.dict.ints.len());
                let d = ctx.dict.ints[i].min(1 << 20) as usize;
                (d + ctx.rng.below(3)).saturating_sub(1)
            }
        }
        _ => ctx.rng.below(300),
    };
    if n > max { n % (max + 1) } else { n }
}

pub fn pt3(r: &mut Rng, d: Dist) -> Point3D {
    Point3D { x: coord(r, d), y: coord(r, d), z: coord(r, d) }
}
pub fn pt2(r: &mut Rng, d: Dist) -> Point2D {
    Point2D { x: coord(r, d), y: coord(r, d) }
}
/// n points; sometimes confined to a line / plane, sometimes with duplicates
pub fn cloud3(ctx: &mut Ctx, n: usize, d: Dist) -> Vec<Point3D> {
    let shape = ctx.rng.below(10);
    let mut v: Vec<Point3D> = Vec::with_capacity(n);
    for _ in 0..n {
        let mut p = Point3D { x: coord_special(ctx, d), y: coord_special(ctx, d), z: coord_special(ctx, d) };
        match shape {
            0 => p.z = unit(d),
            1 => { p.x = 0.0; p.z = 0.0 }
            2 => { p.y = p.x; p.z = p.x }
            3 => { if !v.is_empty() && ctx.rng.chance(1, 3) { p = v[ctx.rng.below(v.len())].clone() } }
            _ => {}
        }
        v.push(p);
    }
    match ctx.rng.below(8) {
        0 => v.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap()),
        1 => v.sort_by(|a, b| b.y.partial_cmp(&a.y).unwrap()),
        _ => {}
    }
    v
}
pub fn cloud2(ctx: &mut Ctx, n: usize, d: Dist) -> Vec<Point2D> {
    let shape = ctx.rng.below(10);
    let mut v: Vec<Point2D> = Vec::with_capacity(n);
    for _ in 0..n {
        let mut p = Point2D { x: coord_special(ctx, d), y: coord_special(ctx, d) };
        match shape {
            0 => p.y = unit(d),
            1 => p.x = -2.0 * unit(d),
            2 => p.y = p.x,
            3 => { if !v.is_empty() && ctx.rng.chance(1, 3) { p = v[ctx.rng.below(v.len())].clone() } }
            _ => {}
        }
        v.push(p);
    }
    match ctx.rng.below(8) {
        0 => v.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap()),
        1 => v.sort_by(|a, b| b.y.partial_cmp(&a.y).unwrap()),
        _ => {}
    }
    v
}
pub fn fp3(ctx: &mut Ctx, v: &[Point3D]) {
    ctx.fpu(v.len() as u64);
    for p in v { ctx.fpf(p.x); ctx.fpf(p.y); ctx.fpf(p.z); }
}
pub fn fp2(ctx: &mut Ctx, v: &[Point2D]) {
    ctx.fpu(v.len() as u64);
    for p in v { ctx.fpf(p.x); ctx.fpf(p.y); }
}
pub fn k3(p: &Point3D) -> [u64; 3] { [p.x.to_bits(), p.y.to_bits(), p.z.to_bits()] }
pub fn k2(p: &Point2D) -> [u64; 2] { [p.x.to_bits(), p.y.to_bits()] }
pub fn show3(v: &[Point3D]) -> String {
    let mut s = String::from("[");
    for p in v.iter().take(40) { s.push_str(&format!("({:?},{:?},{:?})", p.x, p.y, p.z)); }
    if v.len() > 40 { s.push_str(&format!("...{} pts", v.len())); }
    s.push(']');
    s
}
pub fn show2(v: &[Point2D]) -> String {
    let mut s = String::from("[");
    for p in v.iter().take(40) { s.push_str(&format!("({:?},{:?})", p.x, p.y)); }
    if v.len() > 40 { s.push_str(&format!("...{} pts", v.len())); }
    s.push(']');
    s
}
pub fn d3(a: &Point3D, b: &Point3D) -> f64 {
    ((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)).sqrt()
}
pub fn d2(a: &Point2D, b: &Point2D) -> f64 {
    ((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)).sqrt()
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
/// equal relative to their magnitude, at any scale
pub fn near(a: f64, b: f64, tol: f64) -> bool { a == b || (a - b).abs() <= tol * a.abs().max(b.abs()) }

/// ids beyond the last of n, some of which are valid ones once they are cut to fewer bits
pub fn beyond(n: usize) -> Vec<usize> {
    let mut v = vec![n, n + 1, n + 2, usize::MAX, usize::MAX - 1, usize::MAX / 3, usize::MAX / 3 + 1];
    for b in [8, 16, 24, 31, 32, 33, 48, 63].iter() { v.push(1 << b); v.push((1 << b) + n / 2); v.push((1 << b) + n.saturating_sub(1)); }
    v.retain(|x| *x >= n);
    v
}
