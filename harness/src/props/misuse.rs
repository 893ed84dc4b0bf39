//! Part of C27: hostile arguments. Ids and indices beyond every end, raw parts that contradict each other, user types that lie
//! about their length, numbers that are none, sources and sinks that break their contract. A panic or an error is an answer
//! (others judge those); only what the sanitizers report counts.
use crate::core::*;
use crate::guarded;
use rust_3d::io::*;
use rust_3d::*;
use std::collections::{HashSet, LinkedList, VecDeque};
use std::io::{BufRead, Read};
use std::ops::{Index, IndexMut};

type PC = PointCloud3D<Point3D>;

/// an index that is likely wrong for n elements
fn bad(r: &mut Rng, n: usize) -> usize {
    match r.below(20) {
        0..=3 => r.below(n + 1),
        4..=6 => n,
        7..=8 => n + 1,
        9 => n.wrapping_sub(1),
        10 => n + r.below(64),
        11 => 3 * n + r.below(3),
        12 => usize::MAX - r.below(4),
        13 => usize::MAX / 3 + r.below(3),
        14 => [255, 256, 65535, 65536, 0xffff_ffff, 0x1_0000_0000][r.below(6)],
        15 => (1usize << 63) + r.below(3),
        16 => n / 3 + r.below(2),
        17 => (usize::MAX / 3 + 1).wrapping_mul(1 + r.below(2)).wrapping_add(r.below(n + 3)),
        _ => 0,
    }
}
/// any number at all
fn num(r: &mut Rng) -> f64 {
    match r.below(16) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => -f64::INFINITY,
        3 => -0.0,
        4 => f64::MAX,
        5 => f64::MIN_POSITIVE / 4.0,
        6 => f64::from_bits(r.u64()),
        _ => r.range(-8, 8) as f64 * 0.5,
    }
}
/// mostly ordinary numbers
fn calm(r: &mut Rng) -> f64 { if r.chance(1, 24) { num(r) } else { r.range(-8, 8) as f64 * 0.5 } }
fn wild3(r: &mut Rng) -> Point3D { Point3D::new(num(r), num(r), num(r)) }
fn calm3(r: &mut Rng) -> Point3D { Point3D::new(calm(r), calm(r), calm(r)) }
fn calm2(r: &mut Rng) -> Point2D { Point2D::new(calm(r), calm(r)) }
fn fin3(r: &mut Rng) -> Point3D { Point3D::new(r.range(-8, 8) as f64, r.range(-8, 8) as f64, r.range(-8, 8) as f64) }
fn view(r: &mut Rng, n: usize) -> View {
    if r.chance(1, 8) { return View::Full; }
    let mut s = HashSet::new();
    for _ in 0..r.below(6) { s.insert(bad(r, n)); }
    View::Restricted(s)
}

/// runs one step, whatever it does
fn step<T>(ctx: &mut Ctx, name: &'static str, f: impl FnOnce() -> T) -> Option<T> {
    match guarded(f) {
        Ok(x) => { ctx.count(name, 1); Some(x) }
        Err(_) => { ctx.count("misuse refused with a panic", 1); None }
    }
}

/// says it has more (or fewer) elements than it has
struct LyingRa<T> { data: Vec<T>, len: usize }
impl<T> Index<usize> for LyingRa<T> { type Output = T; fn index(&self, i: usize) -> &T { let n = self.data.len(); &self.data[i % n.max(1)] } }
impl<T> IndexMut<usize> for LyingRa<T> { fn index_mut(&mut self, i: usize) -> &mut T { let n = self.data.len(); &mut self.data[i % n.max(1)] } }
impl<T> IsRandomAccessible<T> for LyingRa<T> { fn len(&self) -> usize { self.len } }

/// a mesh that contradicts itself
struct LyingMesh { v: Vec<Point3D>, f: Vec<[usize; 3]>, nv: usize, nf: usize, cloud: PC }
impl IsMesh<Point3D, Face3> for LyingMesh {
    fn num_faces(&self) -> usize { self.nf }
    fn num_vertices(&self) -> usize { self.nv }
    fn face_vertex_ids(&self, f: FId) -> Option<Face3> { self.f.get(f.0).map(|f| Face3::new(VId(f[0]), VId(f[1]), VId(f[2]))) }
    fn face_vertices(&self, f: FId) -> Option<[Point3D; 3]> { let f = self.f.get(f.0)?; Some([self.vertex(VId(f[0]))?, self.vertex(VId(f[1]))?, self.vertex(VId(f[2]))?]) }
    fn vertex(&self, v: VId) -> Option<Point3D> { self.v.get(v.0).cloned() }
}
impl HasBoundingBox3DMaybe for LyingMesh { fn bounding_box_maybe(&self) -> Option<BoundingBox3D> { self.cloud.bounding_box_maybe() } }

/// reads what it is given to write to, returns as little or as much as it likes
struct OddSource { data: Vec<u8>, pos: usize, mood: u64, seen: u64 }
impl OddSource {
    fn turn(&mut self) -> u64 { self.mood = self.mood.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); self.mood >> 33 }
}
impl Read for OddSource {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        // legal for a reader; if the memory behind it isn't initialized, this is where it shows
        for b in buf.iter().take(64) { self.seen = self.seen.wrapping_add(*b as u64); }
        let t = self.turn();
        if t % 97 == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "odd")); }
        let n = (self.data.len() - self.pos).min(buf.len()).min(1 + (t % 7) as usize);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        // more than was written: breaks the contract, must not be believed
        if t % 61 == 3 { return Ok(buf.len().wrapping_add(1 + (t % 5) as usize)); }
        if t % 61 == 4 { return Ok(buf.len()); }
        Ok(n)
    }
}
impl BufRead for OddSource {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        let t = self.turn();
        if t % 97 == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "odd")); }
        let n = (self.data.len() - self.pos).min(1 + (t % 40) as usize);
        Ok(&self.data[self.pos..self.pos + n])
    }
    fn consume(&mut self, n: usize) { self.pos = (self.pos + n).min(self.data.len()); }
}
impl std::io::Seek for OddSource {
    fn seek(&mut self, s: std::io::SeekFrom) -> std::io::Result<u64> {
        let n = self.data.len() as i64;
        let p = match s { std::io::SeekFrom::Start(x) => x as i64, std::io::SeekFrom::End(x) => n.wrapping_add(x), std::io::SeekFrom::Current(x) => (self.pos as i64).wrapping_add(x) };
        if p < 0 { return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "odd")); }
        self.pos = p.min(n) as usize;
        Ok(p as u64)
    }
}

fn index_container<IC: IsIndexContainer>(ctx: &mut Ctx, max: usize) -> IC {
    let mut c = IC::default();
    let m = [3, 200, 300, 70000, max][ctx.rng.below(5)].min(max);
    for _ in 0..ctx.rng.below(12) { let x = ctx.rng.below(m); c.push(x); }
    for _ in 0..1 + ctx.rng.below(6) {
        let n = c.len();
        let (i, x) = (bad(&mut ctx.rng, n), bad(&mut ctx.rng, n));
        match ctx.rng.below(7) {
            0 | 1 => { step(ctx, "index container: get", || c.get(i)); }
            2 => { step(ctx, "index container: set", || c.set(i, x)); }
            3 => { step(ctx, "index container: push", || c.push(x)); }
            4 => { step(ctx, "index container: announced", || c.ensure_supported(x)); }
            5 => { step(ctx, "index container: reserve", || c.reserve(if x < 1 << 16 { x } else { usize::MAX })); }
            _ => { step(ctx, "index container: iterate", || c.iter().map(|x| x as u128).sum::<u128>()); }
        }
    }
    c
}

fn containers<C: IsDataContainer<Point3D> + Default>(ctx: &mut Ctx) -> C {
    let mut c = C::default();
    for _ in 0..ctx.rng.below(10) { let p = calm3(&mut ctx.rng); c.push_d(p); }
    for _ in 0..1 + ctx.rng.below(5) {
        let i = bad(&mut ctx.rng, c.len_d());
        let p = wild3(&mut ctx.rng);
        match ctx.rng.below(3) {
            0 => { step(ctx, "data container: get", || c.get_d(i)); }
            1 => { step(ctx, "data container: set", || c.set_d(i, p)); }
            _ => { step(ctx, "data container: reserve", || c.reserve_d(if i < 1 << 16 { i } else { usize::MAX })); }
        }
    }
    c
}
fn accessible<C: IsRandomInsertible<Point3D> + IsViewBuildable>(ctx: &mut Ctx, mut c: C) {
    for _ in 0..1 + ctx.rng.below(6) {
        let n = c.len();
        let i = bad(&mut ctx.rng, n);
        let p = wild3(&mut ctx.rng);
        let v = view(&mut ctx.rng, n);
        match ctx.rng.below(6) {
            0 => { step(ctx, "sequence: read", || c[i].clone()); }
            1 => { step(ctx, "sequence: write", || c[i] = p); }
            2 => { step(ctx, "sequence: insert", || c.insert(i, p).is_ok()); }
            3 => { step(ctx, "sequence: apply view", || c.apply_view(&v).is_ok()); }
            4 => { step(ctx, "sequence: from view", || c.from_view(&v).is_some()); }
            _ => {
                let mut v = v;
                let f = FilterRandomAccessible::new(FilterSphere::new(Sphere { center: p, radius: Positive::new(3.0).unwrap() }));
                step(ctx, "sequence: filter with a foreign view", || { f.filter(&c, &mut v); v == View::Full });
            }
        }
    }
}

/// every query and algorithm on a mesh whose topology may be nonsense
fn mesh_all<M>(ctx: &mut Ctx, m: &M) where M: IsMesh<Point3D, Face3> + HasBoundingBox3DMaybe {
    let (nv, nf) = (m.num_vertices(), m.num_faces());
    for _ in 0..4 {
        let (f, v) = (FId(bad(&mut ctx.rng, nf)), VId(bad(&mut ctx.rng, nv)));
        step(ctx, "mesh: ids of a face", || m.face_vertex_ids(f));
        step(ctx, "mesh: vertices of a face", || m.face_vertices(f).is_some());
        step(ctx, "mesh: vertex", || m.vertex(v).is_some());
        step(ctx, "mesh: normal", || m.face_normal(f).is_ok());
    }
    if nf < 1 << 12 && nv < 1 << 12 {
        step(ctx, "mesh: normals", || normals_of_mesh(m).len());
        let ray = Ray3D::new(Line3D::new(calm3(&mut ctx.rng), Norm3D::norm_z()));
        step(ctx, "mesh: hits of a ray", || { let mut v: Vec<Point3D> = vec![]; collect_intersections_ray_mesh(&ray, m, &mut v); v.len() });
        let colors: Vec<Rgb> = (0..ctx.rng.below(4)).map(|_| Rgb::new(1, 2, 3)).collect();
        step(ctx, "mesh: save", || { let mut w = vec![]; let _ = save_ply_ascii(&mut w, m); w.len() });
        step(ctx, "mesh: save", || { let mut w = vec![]; let _ = save_ply_binary(&mut w, m, &Precision::P32); w.len() });
        step(ctx, "mesh: save", || { let mut w = vec![]; let _ = save_ply_ascii_colored(&mut w, m, &colors); w.len() });
        step(ctx, "mesh: save", || { let mut w = vec![]; let _ = save_ply_binary_colored(&mut w, m, &Precision::P64, &colors); w.len() });
        step(ctx, "mesh: save", || { let mut w = vec![]; let _ = save_stl_ascii(&mut w, m); w.len() });
    }
}
fn nonsense(r: &mut Rng, nv: usize, small: bool) -> Vec<usize> {
    let n = r.below(19);
    let wrong = r.chance(2, 3);
    (0..n).map(|_| if wrong && r.chance(1, 5) { if small { nv + r.below(9) } else { bad(r, nv) & 0xffff_ffff } } else { r.below(nv.max(1)) }).collect()
}
fn meshes<IC: IsIndexContainer + Default + Clone>(ctx: &mut Ctx) {
    let v: Vec<Point3D> = (0..ctx.rng.below(9)).map(|_| calm3(&mut ctx.rng)).collect();
    let small = ctx.rng.bool();
    let ids = nonsense(&mut ctx.rng, v.len(), small);
    let mut ic = IC::default();
    for x in &ids { ic.push(*x); }
    let mut m: Mesh3D<Point3D, PC, IC> = Mesh3D::from((PC::from(v.clone()), ic));
    mesh_all(ctx, &m);
    step(ctx, "mesh: subdivide", || subdivide::linear::<_, _, Mesh3D<Point3D, PC, IC>>(&m).is_ok());
    step(ctx, "mesh: unify", || unify_faces::<Point3D, _>(&m).is_ok());
    step(ctx, "mesh: heal", || heal_mesh::<Point3D, _>(&m).is_ok());
    let s = num(&mut ctx.rng);
    step(ctx, "mesh: cluster", || cluster_vertices::<Point3D, _>(&m, s).is_ok());
    let (a, b, c) = (bad(&mut ctx.rng, v.len()), bad(&mut ctx.rng, v.len()), bad(&mut ctx.rng, v.len()));
    step(ctx, "mesh: connect", || m.try_add_connection(VId(a), VId(b), VId(c)).is_ok());
    step(ctx, "mesh: change", || m.change_vertex(VId(a), Point3D::default()).is_ok());
    if !small { return; }
    let sm: Option<SearchableMesh<_, Point3D, IC>> = step(ctx, "mesh: make searchable", || SearchableMesh::new(m.clone()));
    if let Some(sm) = sm { topo(ctx, &sm); }
    // half edges from parts that don't belong together
    let mut tails = IC::default();
    for _ in 0..ctx.rng.below(9) { let x = bad(&mut ctx.rng, v.len()) & 0xffff; tails.push(x); }
    let twins: Vec<Option<EId>> = (0..ctx.rng.below(9)).map(|_| if ctx.rng.bool() { Some(EId(bad(&mut ctx.rng, 9))) } else { None }).collect();
    let starts: Vec<IC> = (0..ctx.rng.below(5)).map(|_| { let mut c = IC::default(); for _ in 0..ctx.rng.below(4) { let x = bad(&mut ctx.rng, 9) & 0xffff_ffff; c.push(x); } c }).collect();
    let he = HalfEdge::from((tails, twins, starts));
    let sm: SearchableMesh<_, Point3D, IC> = SearchableMesh::from((m, he));
    topo(ctx, &sm);
}
fn topo<M, IC>(ctx: &mut Ctx, s: &SearchableMesh<M, Point3D, IC>) where M: IsMesh<Point3D, Face3>, IC: IsIndexContainer {
    let (nv, nf) = (s.num_vertices(), s.num_faces());
    for _ in 0..4 {
        let (f, v, e) = (FId(bad(&mut ctx.rng, nf)), VId(bad(&mut ctx.rng, nv)), EId(bad(&mut ctx.rng, 3 * nf)));
        let (mut c, mut r, mut fs) = (vec![EId(0)], vec![], vec![]);
        step(ctx, "topology: of an edge", || (s.edge_tail(e), s.edge_head(e), s.edge_next(e), s.edge_prev(e), s.edge_twin(e), s.edge_face(e)));
        step(ctx, "topology: of a face", || s.edges_of_face(f).is_some());
        step(ctx, "topology: neighbours", || s.face_edge_neighbours(f, &mut fs).is_ok());
        step(ctx, "topology: neighbours", || s.face_vertex_neighbours(f, &mut c, &mut fs).is_ok());
        step(ctx, "topology: of a vertex", || s.edges_originating_from_vertex(v, &mut r).is_ok());
        step(ctx, "topology: of a vertex", || s.edges_ending_at_vertex(v, &mut c, &mut r).is_ok());
        step(ctx, "topology: of a vertex", || s.edges_of_vertex(v, &mut c, &mut r).is_ok());
        step(ctx, "topology: of a vertex", || s.faces_of_vertex(v, &mut c, &mut fs).is_ok());
    }
}

fn trees(ctx: &mut Ctx) {
    let n = ctx.rng.below(24);
    let v: Vec<Point3D> = (0..n).map(|_| calm3(&mut ctx.rng)).collect();
    let mut t = KdTree::default();
    step(ctx, "tree: build", || t.build(PC::from(v.clone())).is_ok());
    let (q, k) = (wild3(&mut ctx.rng), bad(&mut ctx.rng, n));
    let rad = Positive::new(num(&mut ctx.rng)).unwrap_or(Positive::one());
    let k = k.min(1 << 20);
    step(ctx, "tree: search", || { let mut r = vec![]; t.knearest(&q, k, &mut r); r.len() });
    step(ctx, "tree: search", || t.nearest(&q));
    step(ctx, "tree: search", || { let mut r = vec![]; t.in_sphere(&Sphere { center: q.clone(), radius: rad }, &mut r); r.len() });
    step(ctx, "tree: search", || { let mut r = vec![]; t.in_box(&Box3D { center: q.clone(), size_x: rad, size_y: rad, size_z: rad }, &mut r); r.len() });
    let v: Vec<Point3D> = (0..n).map(|_| fin3(&mut ctx.rng)).collect();
    let mut o = OcTree::default();
    step(ctx, "tree: build", || o.build(PC::from(v.clone())).is_ok());
    let d = [-128i8, -1, 0, 1, 127][ctx.rng.below(5)];
    step(ctx, "tree: collect", || o.collect(d).len_d());
    let boxes: Vec<BoundingBox3D> = v.iter().filter_map(|p| { let q = fin3(&mut ctx.rng); BoundingBox3D::from_iterator(&[p.clone(), q]).ok() }).collect();
    let (bx, depth, bucket) = (boxes.clone(), ctx.rng.below(40), ctx.rng.below(3));
    let x = num(&mut ctx.rng);
    if let Some(t) = step(ctx, "tree: build", || AABBTree3D::new(bx, depth, bucket)) {
        step(ctx, "tree: search", || { let mut r = vec![]; t.bb_crossing_x_value(x, &mut r); r.len() });
        step(ctx, "tree: search", || { let mut r = vec![]; t.for_each_intersection_candidate(&Line3D::new(q.clone(), Norm3D::norm_x()), &mut |b: &BoundingBox3D| r.push(b.size_x())); r.len() });
        // a visitor that gives up in the middle
        step(ctx, "tree: search", || { if let Some(b) = boxes.first() { t.for_each_collision_candidate(b, &mut |_: &BoundingBox3D| panic!("visitor")) } });
    }
    let (cx, cy) = (ctx.rng.below(9) as u16, ctx.rng.below(9) as u16);
    if let Some(Some(c)) = step(ctx, "tree: build", || Cluster::new(boxes.clone(), cx, cy).ok()) {
        for _ in 0..3 { let (x, y) = (num(&mut ctx.rng), num(&mut ctx.rng)); step(ctx, "tree: search", || { let mut n = 0; c.for_each_candidate(x, y, &mut |_: &BoundingBox3D| n += 1); n }); }
    }
}

fn liars(ctx: &mut Ctx) {
    let n = ctx.rng.below(9);
    let data: Vec<Point2D> = (0..n).map(|_| calm2(&mut ctx.rng)).collect();
    let len = match ctx.rng.below(4) { 0 => n + 1 + ctx.rng.below(99), 1 => 0, 2 => n / 2, _ => n };
    let ra = LyingRa { data, len };
    step(ctx, "liar: hull", || convex_hull_2d(&ra).len());
    step(ctx, "liar: append", || { let mut c = PointCloud2D::<Point2D>::new(); c.append_ra(&ra); c.len_d() });
    step(ctx, "liar: save", || { let mut w = vec![]; let _ = save_xy(&mut w, &ra, " ", "\n"); w.len() });
    let f = FilterRandomAccessible::new(FilterCircle::new(Circle::new(0.0, 0.0)));
    let mut vw = view(&mut ctx.rng, n);
    step(ctx, "liar: filter", || { f.filter(&ra, &mut vw); vw == View::Full });
    let ra3 = LyingRa { data: (0..n).map(|_| calm3(&mut ctx.rng)).collect::<Vec<Point3D>>(), len };
    step(ctx, "liar: append", || { let mut c = PC::new(); c.append_ra(&ra3); c.len_d() });
    step(ctx, "liar: save", || { let mut w = vec![]; let _ = save_xyz(&mut w, &ra3, " ", "\n"); w.len() });
    let v = ra3.data;
    let f: Vec<[usize; 3]> = (0..ctx.rng.below(6)).map(|_| { let r = &mut ctx.rng; [r.below(n + 3), r.below(n + 3), r.below(n + 3)] }).collect();
    let m = LyingMesh { nv: ctx.rng.below(2 * n + 2), nf: ctx.rng.below(2 * f.len() + 2), cloud: PC::from(v.clone()), v, f };
    mesh_all(ctx, &m);
    step(ctx, "liar: half edges", || { let h: HalfEdge<U32IndexVec> = HalfEdge::new(&m); h.tail(EId(0)) });
    step(ctx, "liar: half edges", || { let h: HalfEdge<DynamicPrecisionIndexVec> = HalfEdge::new(&m); let mut r = vec![]; let _ = h.faces(VId(m.nv), &mut vec![], &mut r); r.len() });
    step(ctx, "liar: subdivide", || subdivide::linear::<_, _, Mesh3D<Point3D, PC, U32IndexVec>>(&m).is_ok());
}

fn plain(ctx: &mut Ctx) {
    let n = ctx.rng.below(9);
    let k = bad(&mut ctx.rng, 3);
    let c: Vec<f64> = (0..ctx.rng.below(6)).map(|_| num(&mut ctx.rng)).collect();
    let mut p = wild3(&mut ctx.rng);
    let x = num(&mut ctx.rng);
    step(ctx, "dimension: read", || p.position_nd(k));
    step(ctx, "dimension: write", || p.set_position(k, x).is_ok());
    step(ctx, "dimension: build", || (Point3D::new_nd(&c).is_ok(), Point2D::new_nd(&c).is_ok(), Sphere::new_nd(&c).is_ok(), Box3D::new_nd(&c).is_ok()));
    let d = ctx.rng.u64() as i8;
    step(ctx, "dimension: compare", || (dimension_compare(&p, &p, d).is_ok(), dimension_dist(&p, &p, d).is_ok()));
    step(ctx, "dimension: unit", || Face3::new(VId(0), VId(1), VId(2)).vid(k));
    let v3: Vec<Point3D> = (0..n).map(|_| wild3(&mut ctx.rng)).collect();
    let v2: Vec<Point2D> = v3.iter().map(|p| Point2D::new(p.x, p.y)).collect();
    let (c3, c2) = (PC::from(v3.clone()), PointCloud2D::from(v2.clone()));
    step(ctx, "numbers: sort", || { let mut c = c3.clone(); c.sort_x(); c.sort_y(); c.sort_z(); c.sort_dim(k).is_ok() });
    step(ctx, "numbers: sort", || { let mut c = c2.clone(); c.sort_x(); c.sort_y(); c.sort_dim(k).is_ok() });
    step(ctx, "numbers: hull", || convex_hull_2d(&v2).len());
    step(ctx, "numbers: simplify", || douglas_peucker_2d(c2.clone(), x).len_d());
    let m = ctx.rng.below(20);
    step(ctx, "numbers: curves", || interpolate_bezier(&c2, m).is_ok());
    step(ctx, "numbers: curves", || interpolate_cosine(&c2, m).is_ok());
    step(ctx, "numbers: curves", || interpolation_linear(&c2, m).is_ok());
    step(ctx, "numbers: box", || (c3.bounding_box_maybe().is_some(), c2.bounding_box_maybe().is_some(), c3.center_of_gravity().is_some(), c3.length()));
    step(ctx, "numbers: pack", || pack_dupes_indexed(v3.iter()).0.len());
    macro_rules! pack { ($t:ty) => { step(ctx, "numbers: compress", || CompressedPointCloud3D::<$t>::compress(&c3).map(|c| c.decompress::<Point3D>().len_d()).is_ok()); } }
    pack!(u8); pack!(u16); pack!(u32); pack!(u64);
    let mut pg = Polygon3D::from(c3.clone());
    let (s, vi) = (SId(bad(&mut ctx.rng, n)), VId(bad(&mut ctx.rng, n)));
    step(ctx, "polygon", || (pg.segment_vertex_ids(s), pg.segment_vertices(s).is_some(), pg.vertex(vi).is_some()));
    step(ctx, "polygon", || pg.change_vertex(vi, Point3D::default()).is_ok());
    step(ctx, "polygon", || (pg.length(), pg.num_segments()));
    let mut pg = Polygon2D::from(c2);
    step(ctx, "polygon", || (pg.segment_vertex_ids(s), pg.segment_vertices(s).is_some(), pg.vertex(vi).is_some()));
    step(ctx, "polygon", || pg.change_vertex(vi, Point2D::default()).is_ok());
    // single precision storage whose length is no multiple of three
    let raw: Vec<f32> = (0..ctx.rng.below(14)).map(|_| num(&mut ctx.rng) as f32).collect();
    let mut c = PointCloud3Df32::<Point3D>::from(raw);
    for _ in 0..3 {
        let i = bad(&mut ctx.rng, c.len_d());
        step(ctx, "single precision: get", || c.get_d(i));
        step(ctx, "single precision: set", || c.set_d(i, Point3D::default()));
        step(ctx, "single precision: move", || c.move_by(1.0, x, 3.0));
        step(ctx, "single precision: box", || c.bounding_box_maybe().is_some());
        step(ctx, "single precision: push", || c.push_d(Point3D::default()));
    }
    // lists and foreign views
    let v = view(&mut ctx.rng, n);
    step(ctx, "sequence: apply view", || { let mut l: LinkedList<Point3D> = v3.iter().cloned().collect(); l.apply_view(&v).is_ok() });
    step(ctx, "sequence: from view", || { let l: LinkedList<Point3D> = v3.iter().cloned().collect(); l.from_view(&v).is_some() });
}

fn text(ctx: &mut Ctx) {
    let alphabet: &[&str] = &["1", "2.5", "-3e300", " ", "\t", "\n", "x", "é", "漢", "\u{1f600}", "\0", ".", "NaN", "1e999", "\u{a0}", "/", ","];
    let s: String = (0..ctx.rng.below(12)).map(|_| *ctx.rng.pick(alphabet)).collect();
    let d: String = (0..ctx.rng.below(3)).map(|_| *ctx.rng.pick(alphabet)).collect();
    step(ctx, "text: parse", || (<Point3D as IsBuildable3D>::parse(&s).is_ok(), <Point2D as IsBuildable2D>::parse(&s).is_ok()));
    step(ctx, "text: parse", || PC::parse(&s).is_ok());
    step(ctx, "text: parse", || PointCloud2D::<Point2D>::parse(&s).is_ok());
    step(ctx, "text: words", || (until(&s, &d).len(), until_bytes(s.as_bytes(), b'/').len(), to_words_skip_empty(s.as_bytes()).count()));
    let m = bad(&mut ctx.rng, 3);
    step(ctx, "text: words", || (contains(s.as_bytes(), d.as_bytes()), estimate_delimiter(m, s.as_bytes())));
    step(ctx, "text: save", || { let mut w = vec![]; let _ = save_xyz(&mut w, &vec![Point3D::default(); 2], &s, &d); w.len() });
}

fn odd_source(ctx: &mut Ctx) {
    let heads: &[&[u8]] = &[
        b"ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 1\nproperty list uchar uint vertex_indices\nend_header\n0 0 0\n1 0 0\n0 1 0\n3 0 1 2\n",
        b"ply\nformat binary_little_endian 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 1\nproperty list uchar uint vertex_indices\nend_header\n0123456789012345678901234567890123456789",
        b"OFF\n3 1 0\n0 0 0\n1 0 0\n0 1 0\n3 0 1 2\n", b"v 1 2 3\nv 1 2 4\nv 2 2 2\nf 1 2 3\n", b"1 2 3\n4 5 6\n", b"solid x\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1 0\nendloop\nendfacet\nendsolid x\n",
        b"G1 X1 Y2 Z3\nG0 X3\n", b"2\n1 2 3\n4 5 6\n", b"LASF"];
    let mut data = ctx.rng.pick(heads).to_vec();
    match ctx.rng.below(4) {
        0 => data.extend((0..ctx.rng.below(300)).map(|_| ctx.rng.u64() as u8)),
        1 => { for _ in 0..1 + ctx.rng.below(4) { if data.is_empty() { break; } let i = ctx.rng.below(data.len()); data[i] = *ctx.rng.pick(&[0u8, 0x80, 0xc3, 0xff, b' ', b'\n', b'9', 0xe2]); } }
        2 => {
            // a LAS header with plausible fields
            data = b"LASF".to_vec(); data.resize(400, 0);
            data[24] = 1; data[25] = ctx.rng.below(5) as u8; data[94] = 227; data[96] = 227; data[104] = ctx.rng.below(4) as u8;
            let l = 20 + ctx.rng.below(20) as u8; data[105] = l; data[107] = ctx.rng.below(9) as u8;
        }
        _ => {}
    }
    let mood = ctx.rng.u64();
    let src = || OddSource { data: data.clone(), pos: 0, mood, seen: 0 };
    type M = Mesh3D<Point3D, PC, U32IndexVec>;
    step(ctx, "source: ply", || load_ply_mesh(src(), &mut M::default()).is_ok());
    step(ctx, "source: ply", || load_ply_points(src(), &mut PC::default()).is_ok());
    step(ctx, "source: off", || load_off_mesh(src(), &mut M::default()).is_ok());
    step(ctx, "source: obj", || load_obj_mesh(src(), &mut M::default()).is_ok());
    step(ctx, "source: xyz", || load_xyz(src(), &mut PC::default()).is_ok());
    step(ctx, "source: xy", || load_xy(src(), &mut PointCloud2D::<Point2D>::default()).is_ok());
    step(ctx, "source: pts", || load_pts(src(), &mut PC::default()).is_ok());
    step(ctx, "source: ptx", || load_ptx(src(), &mut PC::default()).is_ok());
    step(ctx, "source: psl", || load_psl(src(), &mut PC::default()).is_ok());
    step(ctx, "source: gcode", || load_gcode_points(src(), &mut PC::default()).is_ok());
    step(ctx, "source: las", || load_las(src(), &mut PC::default()).is_ok());
    step(ctx, "source: stl", || load_stl_mesh_duped::<M, Point3D, _, _>(src(), StlFormat::Auto, &mut M::default(), &mut Vec::<Point3D>::new()).is_ok());
    step(ctx, "source: stl", || load_stl_mesh_unique::<M, Point3D, _, _>(src(), StlFormat::Binary, &mut M::default(), &mut Vec::<Point3D>::new()).is_ok());
}

pub fn misuse(ctx: &mut Ctx) -> R {
    let k = ctx.rng.below(16);
    ctx.fpu(k as u64);
    match k {
        0 | 1 => { index_container::<DynamicPrecisionIndexVec>(ctx, usize::MAX); }
        2 => { index_container::<U32IndexVec>(ctx, 0xffff_ffff); }
        3 => { index_container::<Vec<usize>>(ctx, usize::MAX); }
        4 => { let c: Vec<Point3D> = containers(ctx); accessible(ctx, c); }
        5 => { let c: VecDeque<Point3D> = containers(ctx); accessible(ctx, c); }
        6 => { let c: PC = containers(ctx); accessible(ctx, c); }
        7 => { containers::<PointCloud3Df32<Point3D>>(ctx); }
        8 => meshes::<DynamicPrecisionIndexVec>(ctx),
        9 => meshes::<U32IndexVec>(ctx),
        10 => meshes::<Vec<usize>>(ctx),
        11 => trees(ctx),
        12 => liars(ctx),
        13 => plain(ctx),
        14 => text(ctx),
        _ => odd_source(ctx),
    }
    ctx.nontrivial = true;
    Ok(())
}
