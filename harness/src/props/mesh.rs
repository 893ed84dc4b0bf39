//! C11 mesh topology queries, C12 mesh edits, C13 index containers, C19 healing and clustering, C20 subdivision, orientation, normals.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
// not a glob: IsIndexContainer in scope would shadow slice methods of Vec<usize>
use rust_3d::{
    cluster_vertices, heal_mesh, normals_of_mesh, subdivide, unify_faces, DynamicPrecisionIndexVec, EId, FId, Face3, HalfEdge, Is3D, IsDataContainer,
    IsFaceEditableMesh, IsMesh, IsMesh3D, IsMovable3D, IsSearchableMesh, IsVertexEditableMesh, Mesh3D, Point3D, PointCloud3D, PointCloud3Df32, SearchableMesh, U32IndexVec, VId,
};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

#[derive(Clone, Debug, Default)]
pub struct Tri { pub v: Vec<Point3D>, pub f: Vec<[usize; 3]> }

fn p(x: f64, y: f64, z: f64) -> Point3D { Point3D { x, y, z } }

pub fn show(t: &Tri) -> String {
    format!("{} vertices {} faces {:?}", t.v.len(), show3(&t.v), &t.f[..t.f.len().min(60)])
}

fn grid(w: usize, h: usize, wrap_u: bool, wrap_v: bool) -> Tri {
    // (w x h) quads, optionally wrapped: plane, cylinder or torus; coordinates are exact
    let nu = if wrap_u { w } else { w + 1 };
    let nv = if wrap_v { h } else { h + 1 };
    let mut t = Tri::default();
    for j in 0..nv { for i in 0..nu {
        let z = ((i * 7 + j * 3) % 5) as f64;
        t.v.push(p(i as f64, j as f64, if wrap_u || wrap_v { z * 2.0 } else { z * 0.25 }));
    } }
    let id = |i: usize, j: usize| (j % nv) * nu + (i % nu);
    for j in 0..h { for i in 0..w {
        let (a, b, c, d) = (id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1));
        if (i + j) % 2 == 0 { t.f.push([a, b, c]); t.f.push([a, c, d]); } else { t.f.push([a, b, d]); t.f.push([b, c, d]); }
    } }
    t
}
fn octa() -> Tri {
    Tri { v: vec![p(2., 0., 0.), p(-2., 0., 0.), p(0., 2., 0.), p(0., -2., 0.), p(0., 0., 2.), p(0., 0., -2.)],
          f: vec![[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]] }
}
fn tetra() -> Tri {
    Tri { v: vec![p(0., 0., 0.), p(4., 0., 0.), p(0., 4., 0.), p(0., 0., 4.)], f: vec![[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]] }
}
fn cube() -> Tri {
    let mut t = Tri::default();
    for i in 0..8 { t.v.push(p((i & 1) as f64, ((i >> 1) & 1) as f64, ((i >> 2) & 1) as f64)); }
    for q in [[0, 2, 3, 1], [4, 5, 7, 6], [0, 1, 5, 4], [2, 6, 7, 3], [0, 4, 6, 2], [1, 3, 7, 5]].iter() {
        t.f.push([q[0], q[1], q[2]]);
        t.f.push([q[0], q[2], q[3]]);
    }
    t
}
fn refine(t: &Tri) -> Tri {
    let mut o = Tri { v: t.v.clone(), f: vec![] };
    let mut mid: HashMap<(usize, usize), usize> = HashMap::new();
    for f in &t.f {
        let mut m = [0; 3];
        for k in 0..3 {
            let (a, b) = (f[k], f[(k + 1) % 3]);
            let key = (a.min(b), a.max(b));
            m[k] = *mid.entry(key).or_insert_with(|| { let (q, r) = (&t.v[a], &t.v[b]); o.v.push(p((q.x + r.x) / 2., (q.y + r.y) / 2., (q.z + r.z) / 2.)); o.v.len() - 1 });
        }
        o.f.push([f[0], m[0], m[2]]); o.f.push([m[0], f[1], m[1]]); o.f.push([m[2], m[1], f[2]]); o.f.push([m[0], m[1], m[2]]);
    }
    o
}
fn fan(n: usize, closed: bool) -> Tri {
    let mut t = Tri::default();
    t.v.push(p(0., 0., 1.));
    for i in 0..n { let a = i as f64 * 6.283185307179586 / n as f64; t.v.push(p(a.cos() * 4., a.sin() * 4., (i % 3) as f64 * 0.5)); }
    for i in 0..n { if i + 1 < n || closed { t.f.push([0, 1 + i, 1 + (i + 1) % n]); } }
    t
}
fn soup(ctx: &mut Ctx, nv: usize, nf: usize, d: Dist) -> Tri {
    let v = cloud3(ctx, nv.max(3), d);
    let n = v.len();
    let mut f = vec![];
    for _ in 0..nf {
        let a = ctx.rng.below(n);
        let mut b = ctx.rng.below(n);
        while b == a { b = ctx.rng.below(n); }
        let mut c = ctx.rng.below(n);
        while c == a || c == b { c = ctx.rng.below(n); }
        f.push([a, b, c]);
    }
    Tri { v, f }
}
fn merge(a: &mut Tri, b: Tri, shift: f64) {
    let n = a.v.len();
    a.v.extend(b.v.into_iter().map(|q| p(q.x + shift, q.y, q.z)));
    a.f.extend(b.f.into_iter().map(|f| [f[0] + n, f[1] + n, f[2] + n]));
}
/// a consistently oriented manifold mesh (possibly with boundary, several components, isolated vertices), scrambled ids
pub fn manifold(ctx: &mut Ctx, big: bool) -> Tri {
    let one = |ctx: &mut Ctx| -> Tri {
        match ctx.rng.below(10) {
            0 => { let (w, h) = (1 + ctx.rng.below(6), 1 + ctx.rng.below(6)); grid(w, h, false, false) }
            1 => { let (w, h) = (3 + ctx.rng.below(5), 1 + ctx.rng.below(5)); grid(w, h, true, false) }
            2 => { let (w, h) = (3 + ctx.rng.below(5), 3 + ctx.rng.below(5)); grid(w, h, true, true) }
            3 => octa(),
            4 => tetra(),
            5 => cube(),
            6 => { let n = if !ctx.tiny && ctx.rng.chance(1, 40) { 12 + ctx.rng.below(600) } else { 3 + ctx.rng.below(9) }; let closed = ctx.rng.bool(); fan(n, closed) }
            7 => refine(&octa()),
            8 => { let t = refine(&cube()); if ctx.rng.chance(1, 4) { refine(&t) } else { t } }
            _ => Tri { v: vec![p(0., 0., 0.), p(1., 0., 0.), p(0., 1., 0.)], f: vec![[0, 1, 2]] },
        }
    };
    let mut t = if big { let (w, h) = (100 + ctx.rng.below(60), 100 + ctx.rng.below(60)); grid(w, h, ctx.rng.bool(), false) } else { one(ctx) };
    let parts = if big { 0 } else { match ctx.rng.below(6) { 0 => 1, 1 => 2, _ => 0 } };
    for i in 0..parts { let o = one(ctx); merge(&mut t, o, 20.0 * (i + 1) as f64); }
    if ctx.rng.chance(1, 4) {
        // holes: drop faces
        let n = t.f.len();
        let keep: Vec<bool> = (0..n).map(|_| ctx.rng.chance(3, 4)).collect();
        let mut i = 0;
        t.f.retain(|_| { i += 1; keep[i - 1] });
    }
    if ctx.rng.chance(1, 3) { for _ in 0..ctx.rng.below(4) { t.v.push(p(9., 9., ctx.rng.range(0, 9) as f64)); } }
    scramble(ctx, &mut t);
    t
}
/// mostly small ones, rarely one that does not fit 16 bit ids
fn surface(ctx: &mut Ctx) -> Tri {
    if ctx.tiny || !ctx.rng.chance(1, 4000) { return manifold(ctx, false); }
    ctx.count("meshes_beyond_u16_vertices", 1);
    let (w, h) = (256 + ctx.rng.below(40), 256 + ctx.rng.below(40));
    let mut t = grid(w, h, ctx.rng.bool(), false);
    scramble(ctx, &mut t);
    t
}
/// relabels vertices, reorders faces, rotates faces
pub fn scramble(ctx: &mut Ctx, t: &mut Tri) {
    if ctx.rng.chance(1, 4) { return; }
    let mut perm: Vec<usize> = (0..t.v.len()).collect();
    ctx.rng.shuffle(&mut perm);
    let mut v = t.v.clone();
    for i in 0..t.v.len() { v[perm[i]] = t.v[i].clone(); }
    t.v = v;
    for f in t.f.iter_mut() {
        for x in f.iter_mut() { *x = perm[*x]; }
        let k = ctx.rng.below(3);
        f.rotate_left(k);
    }
    ctx.rng.shuffle(&mut t.f);
}
pub fn fp_tri(ctx: &mut Ctx, t: &Tri) {
    fp3(ctx, &t.v);
    for f in &t.f { ctx.fpu((f[0] as u64) << 42 ^ (f[1] as u64) << 21 ^ f[2] as u64); }
}

pub fn build<ID, IC>(t: &Tri) -> Result<Mesh3D<Point3D, ID, IC>, Fail>
where ID: IsDataContainer<Point3D> + Default, IC: rust_3d::IsIndexContainer {
    let mut m: Mesh3D<Point3D, ID, IC> = Default::default();
    for v in &t.v { m.add_vertex(v.clone()); }
    for (i, f) in t.f.iter().enumerate() {
        match m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])) {
            Ok(id) => ensure!(id.0 == i, "mesh-add-id", "face {} was added as {}", i, id.0),
            Err(e) => return fail("mesh-add", format!("connecting {:?} of {} vertices failed: {:?}", f, t.v.len(), e)),
        }
    }
    Ok(m)
}
type PC = PointCloud3D<Point3D>;
type MV = Mesh3D<Point3D, Vec<Point3D>, Vec<usize>>;
type MP = Mesh3D<Point3D, PC, Vec<usize>>;
type MU = Mesh3D<Point3D, Vec<Point3D>, U32IndexVec>;
type MD = Mesh3D<Point3D, PC, DynamicPrecisionIndexVec>;

// ---------------------------------------------------------------- C11
fn eids(v: &[EId]) -> Vec<usize> { v.iter().map(|e| e.0).collect() }
fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> { let mut v = v.to_vec(); v.sort(); v }

fn topo_check<S>(ctx: &mut Ctx, t: &Tri, s: &S, is_manifold: bool, what: &str) -> R
where S: IsSearchableMesh<Point3D, Face3> {
    let (nv, nf) = (t.v.len(), t.f.len());
    ensure!(s.num_edges() == 3 * nf && s.num_faces() == nf && s.num_vertices() == nv, "topo-count", "{}: {} edges {} faces {} vertices, expected {} {} {}", what, s.num_edges(), s.num_faces(), s.num_vertices(), 3 * nf, nf, nv);
    // reference
    let tail = |e: usize| t.f[e / 3][e % 3];
    let next = |e: usize| if e % 3 == 2 { e - 2 } else { e + 1 };
    let prev = |e: usize| if e % 3 == 0 { e + 2 } else { e - 1 };
    let head = |e: usize| tail(next(e));
    let mut by_dir: HashMap<(usize, usize), Vec<usize>> = HashMap::new();
    let mut orig: Vec<Vec<usize>> = vec![vec![]; nv];
    for e in 0..3 * nf { by_dir.entry((tail(e), head(e))).or_default().push(e); orig[tail(e)].push(e); }
    let empty = vec![];
    // edges
    for e in 0..3 * nf {
        let id = EId(e);
        ensure!(s.edge_tail(id) == Some(VId(tail(e))), "topo-tail", "{}: tail of edge {} is {:?}, expected {}", what, e, s.edge_tail(id), tail(e));
        ensure!(s.edge_head(id) == Some(VId(head(e))), "topo-head", "{}: head of edge {} is {:?}, expected {}", what, e, s.edge_head(id), head(e));
        ensure!(s.edge_next(id) == Some(EId(next(e))), "topo-next", "{}: next of edge {} is {:?}", what, e, s.edge_next(id));
        ensure!(s.edge_prev(id) == Some(EId(prev(e))), "topo-prev", "{}: prev of edge {} is {:?}", what, e, s.edge_prev(id));
        ensure!(s.edge_face(id) == Some(FId(e / 3)), "topo-face", "{}: face of edge {} is {:?}", what, e, s.edge_face(id));
        let rev = by_dir.get(&(head(e), tail(e))).unwrap_or(&empty);
        match s.edge_twin(id) {
            None => ensure!(rev.is_empty(), "topo-twin-missing", "{}: edge {} ({} -> {}) has no twin although edge(s) {:?} run the other way; faces {:?}", what, e, tail(e), head(e), rev, &t.f[..t.f.len().min(40)]),
            Some(w) => {
                ensure!(w.0 < 3 * nf && rev.contains(&w.0), "topo-twin", "{}: twin of edge {} ({} -> {}) is {} but the reversed edges are {:?}", what, e, tail(e), head(e), w.0, rev);
                if is_manifold { ensure!(s.edge_twin(w) == Some(id), "topo-twin-mutual", "{}: twin of twin of {} is {:?}", what, e, s.edge_twin(w)); ctx.count("twins", 1); }
            }
        }
    }
    ctx.count("edges", 3 * nf as u64);
    for e in beyond(3 * nf).iter() {
        let id = EId(*e);
        ensure!(s.edge_tail(id).is_none() && s.edge_head(id).is_none() && s.edge_next(id).is_none() && s.edge_prev(id).is_none() && s.edge_twin(id).is_none() && s.edge_face(id).is_none(),
            "topo-oob-edge", "{}: edge id {} of {} edges is answered", what, e, 3 * nf);
    }
    // vertices
    let mut cache: Vec<EId> = vec![EId(77), EId(3)];
    let step = if nv > 400 { nv / 400 } else { 1 };
    let mut v = 0;
    while v < nv {
        let junk = ctx.rng.bool();
        let pre: Vec<EId> = if junk { vec![EId(usize::MAX), EId(1)] } else { vec![] };
        let np = pre.len();
        let mut out = pre.clone();
        ensure!(s.edges_originating_from_vertex(VId(v), &mut out).is_ok(), "topo-orig-err", "{}: vertex {} of {} is refused", what, v, nv);
        ensure!(out[..np] == pre[..], "topo-append", "{}: results were not appended", what);
        ensure!(sorted(&eids(&out[np..])) == orig[v], "topo-orig", "{}: edges leaving vertex {}: {:?}, expected {:?}", what, v, eids(&out[np..]), orig[v]);
        let mut out = pre.clone();
        ensure!(s.edges_ending_at_vertex(VId(v), &mut cache, &mut out).is_ok(), "topo-end-err", "{}: vertex {} of {} is refused", what, v, nv);
        let want_end = sorted(&orig[v].iter().map(|e| prev(*e)).collect::<Vec<_>>());
        ensure!(out[..np] == pre[..], "topo-append", "{}: results were not appended", what);
        ensure!(sorted(&eids(&out[np..])) == want_end, "topo-end", "{}: edges ending at vertex {}: {:?}, expected {:?}", what, v, eids(&out[np..]), want_end);
        let mut out = pre.clone();
        ensure!(s.edges_of_vertex(VId(v), &mut cache, &mut out).is_ok(), "topo-all-err", "{}: vertex {} of {} is refused", what, v, nv);
        let mut want: Vec<usize> = orig[v].clone();
        want.extend(want_end.iter());
        want.sort();
        ensure!(out[..np] == pre[..], "topo-append", "{}: results were not appended", what);
        ensure!(sorted(&eids(&out[np..])) == want, "topo-all", "{}: edges of vertex {}: {:?}, expected {:?}", what, v, eids(&out[np..]), want);
        let pre: Vec<FId> = if junk { vec![FId(usize::MAX)] } else { vec![] };
        let np = pre.len();
        let mut out = pre.clone();
        ensure!(s.faces_of_vertex(VId(v), &mut cache, &mut out).is_ok(), "topo-fov-err", "{}: vertex {} of {} is refused", what, v, nv);
        ensure!(out[..np] == pre[..], "topo-append", "{}: results were not appended", what);
        let want: Vec<usize> = sorted(&orig[v].iter().map(|e| e / 3).collect::<Vec<_>>());
        ensure!(sorted(&out[np..].iter().map(|f| f.0).collect::<Vec<_>>()) == want, "topo-fov", "{}: faces of vertex {}: {:?}, expected {:?}", what, v, out, want);
        if orig[v].is_empty() { ctx.count("isolated_vertices", 1); }
        ctx.count("vertices", 1);
        v += step;
    }
    for v in beyond(nv).iter() {
        let mut eo = vec![]; let mut fo = vec![];
        ensure!(s.edges_originating_from_vertex(VId(*v), &mut eo).is_err() && s.edges_ending_at_vertex(VId(*v), &mut cache, &mut eo).is_err()
            && s.edges_of_vertex(VId(*v), &mut cache, &mut eo).is_err() && s.faces_of_vertex(VId(*v), &mut cache, &mut fo).is_err() && s.vertex(VId(*v)).is_none(),
            "topo-oob-vertex", "{}: vertex id {} of {} vertices is accepted", what, v, nv);
        ensure!(eo.is_empty() && fo.is_empty(), "topo-oob-vertex", "{}: vertex id {} of {} vertices gave results", what, v, nv);
    }
    // faces
    let step = if nf > 400 { nf / 400 } else { 1 };
    let mut f = 0;
    while f < nf {
        ensure!(s.edges_of_face(FId(f)) == Some((EId(3 * f), EId(3 * f + 1), EId(3 * f + 2))), "topo-eof", "{}: edges of face {}: {:?}", what, f, s.edges_of_face(FId(f)));
        let ids = s.face_vertex_ids(FId(f)).map(|x| [x.a.0, x.b.0, x.c.0]);
        ensure!(ids == Some(t.f[f]), "topo-fvi", "{}: vertex ids of face {}: {:?}", what, f, ids);
        let mut out = vec![];
        ensure!(s.face_edge_neighbours(FId(f), &mut out).is_ok(), "topo-fen-err", "{}: face {} refused", what, f);
        let got = sorted(&out.iter().map(|x| x.0).collect::<Vec<_>>());
        if is_manifold {
            let mut want = vec![];
            for e in 3 * f..3 * f + 3 { if let Some(r) = by_dir.get(&(head(e), tail(e))) { want.extend(r.iter().map(|x| x / 3)); } }
            want.sort();
            ensure!(got == want, "topo-fen", "{}: faces sharing an edge with face {}: {:?}, expected {:?}", what, f, got, want);
        } else {
            for g in &got { ensure!((0..3).any(|k| { let e = 3 * f + k; by_dir.get(&(head(e), tail(e))).map(|r| r.iter().any(|x| x / 3 == *g)).unwrap_or(false) }), "topo-fen", "{}: face {} is no edge neighbour of {}", what, g, f); }
        }
        let pre = if ctx.rng.bool() { vec![] } else { vec![FId(usize::MAX), FId(0)] };
        let mut out = pre.clone();
        ensure!(s.face_vertex_neighbours(FId(f), &mut cache, &mut out).is_ok(), "topo-fvn-err", "{}: face {} refused", what, f);
        let got: Vec<usize> = out.iter().map(|x| x.0).collect();
        let mut want: BTreeSet<usize> = BTreeSet::new();
        for k in 0..3 { for e in &orig[t.f[f][k]] { want.insert(e / 3); } }
        ensure!(got.windows(2).all(|w| w[0] < w[1]), "topo-fvn-sorted", "{}: vertex neighbours of face {} are not sorted and unique: {:?}", what, f, got);
        for q in &pre { want.insert(q.0); }
        let mut got_set: BTreeSet<usize> = got.iter().cloned().collect();
        got_set.remove(&f); want.remove(&f); // whether a face is its own neighbour is left open
        ensure!(got_set == want, "topo-fvn", "{}: faces sharing a vertex with face {}: {:?}, expected {:?}", what, f, got_set, want);
        ctx.count("face_queries", 1);
        f += step;
    }
    for f in beyond(nf).iter() {
        let mut fo = vec![];
        ensure!(s.edges_of_face(FId(*f)).is_none() && s.face_vertex_ids(FId(*f)).is_none() && s.face_vertices(FId(*f)).is_none()
            && s.face_edge_neighbours(FId(*f), &mut fo).is_err() && s.face_vertex_neighbours(FId(*f), &mut cache, &mut fo).is_err() && fo.is_empty(),
            "topo-oob-face", "{}: face id {} of {} faces is accepted", what, f, nf);
    }
    Ok(())
}

fn half_edge_check<IC: rust_3d::IsIndexContainer>(ctx: &mut Ctx, t: &Tri, he: &HalfEdge<IC>) -> R {
    let ne = 3 * t.f.len();
    let nv = t.v.len();
    let mut cache = vec![EId(5)];
    for _ in 0..20 {
        if ne > 0 {
            let e = ctx.rng.below(ne);
            ensure!(he.tail(EId(e)) == Some(VId(t.f[e / 3][e % 3])) && he.face(EId(e)) == Some(FId(e / 3)), "he-edge", "half edge {}: tail {:?} face {:?}", e, he.tail(EId(e)), he.face(EId(e)));
            ensure!(he.ensure_edge_id(EId(e)).is_ok(), "he-ensure", "edge id {} of {} refused", e, ne);
            let n = he.next(EId(e)).and_then(|n| he.next(n)).and_then(|n| he.next(n));
            ensure!(n == Some(EId(e)) && he.next(EId(e)).and_then(|n| he.prev(n)) == Some(EId(e)), "he-cycle", "next/prev of {} do not form a cycle of three", e);
        }
        if nv > 0 {
            let v = ctx.rng.below(nv);
            ensure!(he.ensure_vertex_id(VId(v)).is_ok(), "he-ensure", "vertex id {} of {} refused", v, nv);
            let (mut o, mut e, mut a, mut f) = (vec![], vec![], vec![], vec![]);
            ensure!(he.edges_originating(VId(v), &mut o).is_ok() && he.edges_ending(VId(v), &mut cache, &mut e).is_ok() && he.edges_all(VId(v), &mut cache, &mut a).is_ok() && he.faces(VId(v), &mut cache, &mut f).is_ok(), "he-vertex", "vertex {} refused", v);
            let want: Vec<usize> = (0..t.f.len()).filter(|i| t.f[*i].contains(&v)).collect();
            ensure!(sorted(&f.iter().map(|x| x.0).collect::<Vec<_>>()) == want, "he-faces", "faces of vertex {}: {:?} expected {:?}", v, f, want);
            ensure!(o.len() == want.len() && e.len() == want.len() && a.len() == 2 * want.len(), "he-count", "vertex {}: {} originating {} ending {} all", v, o.len(), e.len(), a.len());
        }
    }
    ensure!(he.ensure_edge_id(EId(ne)).is_err() && he.ensure_vertex_id(VId(nv)).is_err() && he.tail(EId(ne)).is_none() && he.face(EId(ne)).is_none() && he.next(EId(ne)).is_none() && he.prev(EId(ne)).is_none() && he.twin(EId(ne)).is_none(), "he-oob", "ids one past the end are accepted");
    Ok(())
}

fn is_manifold(t: &Tri) -> bool {
    let mut seen = BTreeSet::new();
    t.f.iter().all(|f| (0..3).all(|k| seen.insert((f[k], f[(k + 1) % 3]))))
}

fn p_added_vertex() -> R {
    let m: MP = build(&Tri { v: vec![p(0., 0., 0.), p(1., 0., 0.), p(0., 1., 0.)], f: vec![[0, 1, 2]] })?;
    let mut s: SearchableMesh<MP, Point3D, Vec<usize>> = SearchableMesh::new(m);
    let id = s.add_vertex(p(1., 1., 1.));
    let mut r = vec![];
    ensure!(s.edges_originating_from_vertex(id, &mut r).is_ok() && r.is_empty(), "topo-added", "the edges of a vertex added later are {:?}", r);
    Ok(())
}
fn topology(ctx: &mut Ctx) -> R {
    let big = ctx.rng.chance(1, if ctx.thorough { 300 } else { 900 });
    let mut t = match ctx.rng.below(6) {
        0 if !big => { let (nv, nf) = (3 + size(ctx, 300), size(ctx, 200)); soup(ctx, nv, nf, Dist::Grid) }
        1 if !big => { let (nv, nf) = (3 + ctx.rng.below(4), ctx.rng.below(8)); soup(ctx, nv, nf, Dist::Grid) }
        _ => manifold(ctx, big),
    };
    if ctx.rng.chance(1, 6) { for f in t.f.iter_mut() { if ctx.rng.chance(1, 3) { f.swap(1, 2); } } }
    fp_tri(ctx, &t);
    if ctx.want_desc { let s = show(&t); ctx.note(s); }
    let man = is_manifold(&t);
    ctx.count(if man { "manifold_meshes" } else { "other_meshes" }, 1);
    if t.f.len() > 21845 { ctx.count("meshes_beyond_u16_edges", 1); }
    if t.f.len() > 85 { ctx.count("meshes_beyond_u8_edges", 1); }
    ctx.nontrivial = man && t.f.len() > 1;
    match ctx.rng.below(5) {
        0 => { let m: MV = build(&t)?; let s: SearchableMesh<_, _, Vec<usize>> = SearchableMesh::new(m); topo_check(ctx, &t, &s, man, "Vec")?; let (_, he): (MV, HalfEdge<Vec<usize>>) = s.into(); half_edge_check(ctx, &t, &he)?; }
        1 => { let m: MU = build(&t)?; let s: SearchableMesh<_, _, U32IndexVec> = SearchableMesh::new(m); topo_check(ctx, &t, &s, man, "U32IndexVec")?; half_edge_check(ctx, &t, &HalfEdge::<Vec<usize>>::new(s.mesh()))?; }
        2 => { let m: MD = build(&t)?; let s: SearchableMesh<_, _, DynamicPrecisionIndexVec> = SearchableMesh::new(m); topo_check(ctx, &t, &s, man, "DynamicPrecisionIndexVec")?; let s2 = s.clone(); drop(s); half_edge_check(ctx, &t, &HalfEdge::<U32IndexVec>::new(s2.mesh()))?; half_edge_check(ctx, &t, &HalfEdge::<U32IndexVec>::new(AsRef::<MD>::as_ref(&s2)))?; }
        3 => {
            // taken apart and put together again
            let m: MP = build(&t)?;
            let s: SearchableMesh<MP, Point3D, DynamicPrecisionIndexVec> = SearchableMesh::new(m);
            let (m, he): (MP, HalfEdge<DynamicPrecisionIndexVec>) = s.into();
            let (two, one) = (he.clone(), he.clone());
            let parts: (DynamicPrecisionIndexVec, Vec<Option<EId>>, Vec<DynamicPrecisionIndexVec>) = he.into();
            let two: (DynamicPrecisionIndexVec, Vec<Option<EId>>) = two.into();
            let one: Vec<DynamicPrecisionIndexVec> = one.into();
            let ids = |c: &DynamicPrecisionIndexVec| -> Vec<usize> { use rust_3d::IsIndexContainer as I; (0..I::len(c)).map(|i| I::get(c, i)).collect() };
            ensure!(ids(&two.0) == ids(&parts.0) && two.1 == parts.1 && one.iter().map(ids).collect::<Vec<_>>() == parts.2.iter().map(ids).collect::<Vec<_>>(), "parts", "the parts of the half edges differ; {}", show(&t));
            let he = HalfEdge::from(parts);
            let s: SearchableMesh<MP, Point3D, DynamicPrecisionIndexVec> = SearchableMesh::from((m, he));
            topo_check(ctx, &t, &s, man, "reassembled")?;
        }
        _ => {
            // vertex edits through the searchable mesh keep the topology of existing elements
            let m: MP = build(&t)?;
            let mut s: SearchableMesh<MP, Point3D, U32IndexVec> = SearchableMesh::new(m);
            s.reserve_vertices(ctx.rng.below(100));
            let mut v = t.v.clone();
            for _ in 0..ctx.rng.below(5) {
                if v.is_empty() { break; }
                let i = ctx.rng.below(v.len());
                let q = pt3(&mut ctx.rng, Dist::Uniform);
                ensure!(s.change_vertex(VId(i), q.clone()).is_ok(), "sm-change", "vertex {} of {} could not be changed", i, v.len());
                v[i] = q;
            }
            for i in 0..v.len() { ensure!(s.vertex(VId(i)).map(|q| k3(&q)) == Some(k3(&v[i])), "sm-vertex", "vertex {} is {:?}", i, s.vertex(VId(i))); }
            ensure!(s.change_vertex(VId(v.len()), p(0., 0., 0.)).is_err(), "sm-change-oob", "a vertex id out of range was changed");
            // added vertices aren't used by any edge, everything else stays
            for _ in 0..ctx.rng.below(4) {
                let n = v.len();
                let q = pt3(&mut ctx.rng, Dist::Uniform);
                let id = s.add_vertex(q.clone());
                ensure!(id.0 == n, "sm-add", "new vertex got id {:?} after {}", id, n);
                v.push(q);
                ctx.count("vertices_added_later", 1);
            }
            t.v = v;
            topo_check(ctx, &t, &s, man, "edited")?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12
trait Store: IsDataContainer<Point3D> + Default + Clone + IsMovable3D { fn rnd(x: f64) -> f64; fn mv(x: f64, d: f64) -> f64; }
impl Store for Vec<Point3D> { fn rnd(x: f64) -> f64 { x } fn mv(x: f64, d: f64) -> f64 { x + d } }
impl Store for VecDeque<Point3D> { fn rnd(x: f64) -> f64 { x } fn mv(x: f64, d: f64) -> f64 { x + d } }
impl Store for PC { fn rnd(x: f64) -> f64 { x } fn mv(x: f64, d: f64) -> f64 { x + d } }
impl Store for PointCloud3Df32<Point3D> { fn rnd(x: f64) -> f64 { x as f32 as f64 } fn mv(x: f64, d: f64) -> f64 { (x as f32 + d as f32) as f64 } }

fn same(a: &Point3D, b: &Point3D) -> bool { k3(a) == k3(b) }
fn mesh_equals<M: IsMesh<Point3D, Face3>>(ctx: &mut Ctx, m: &M, t: &Tri, full: bool, log: &str) -> R {
    ensure!(m.num_vertices() == t.v.len() && m.num_faces() == t.f.len(), "edit-count", "{} vertices, {} faces; expected {}, {}; {}", m.num_vertices(), m.num_faces(), t.v.len(), t.f.len(), log);
    let (nv, nf) = (t.v.len(), t.f.len());
    let vs: Vec<usize> = if full { (0..nv).collect() } else { (0..nv.min(6)).map(|_| ctx.rng.below(nv)).collect() };
    for i in vs { let g = m.vertex(VId(i)); ensure!(g.as_ref().map(|g| same(g, &t.v[i])) == Some(true), "edit-vertex", "vertex {} is {:?}, expected {:?}; {}", i, g, t.v[i], log); }
    let fs: Vec<usize> = if full { (0..nf).collect() } else { (0..nf.min(6)).map(|_| ctx.rng.below(nf)).collect() };
    for i in fs {
        let g = m.face_vertex_ids(FId(i)).map(|x| [x.a.0, x.b.0, x.c.0]);
        ensure!(g == Some(t.f[i]), "edit-face", "face {} is {:?}, expected {:?}; {}", i, g, t.f[i], log);
        let g = m.face_vertices(FId(i));
        ensure!(g.as_ref().map(|g| (0..3).all(|k| same(&g[k], &t.v[t.f[i][k]]))) == Some(true), "edit-face-vertices", "vertices of face {} are {:?}; {}", i, g, log);
    }
    for i in beyond(nv).iter() { if *i >= nv { ensure!(m.vertex(VId(*i)).is_none(), "edit-vertex-oob", "vertex id {} of {} is answered", i, nv); } }
    for i in beyond(nf).iter() { ensure!(m.face_vertex_ids(FId(*i)).is_none() && m.face_vertices(FId(*i)).is_none(), "edit-face-oob", "face id {} of {} is answered", i, nf); }
    Ok(())
}
fn edits<ID: Store, IC: rust_3d::IsIndexContainer>(ctx: &mut Ctx) -> R {
    let mut m: Mesh3D<Point3D, ID, IC> = Default::default();
    let mut t = Tri::default();
    let d = *ctx.rng.pick(&DISTS);
    let rp = |q: &Point3D| p(ID::rnd(q.x), ID::rnd(q.y), ID::rnd(q.z));
    let jump = ctx.rng.chance(1, if ctx.thorough { 400 } else { 1500 });
    let steps = if ctx.rng.chance(1, 10) { 60 + ctx.rng.below(400) } else { 1 + ctx.rng.below(40) };
    let mut log = String::new();
    let mut snap: Option<(Mesh3D<Point3D, ID, IC>, Tri)> = None;
    for step in 0..steps {
        let op = ctx.rng.below(13);
        ctx.fpu(op as u64);
        let logging = ctx.want_desc || steps < 60;
        match op {
            0..=1 => {
                let q = if ctx.rng.chance(1, 10) { p(f64::MAX / 4.0, -0.0, 1e-320) } else { pt3(&mut ctx.rng, d) };
                ctx.fpf(q.x);
                let id = m.add_vertex(q.clone());
                if logging { log.push_str(&format!("add_vertex -> {} ", id.0)); }
                ensure!(id.0 == t.v.len(), "edit-add-vertex", "add_vertex returned {} for vertex {}; {}", id.0, t.v.len(), log);
                t.v.push(rp(&q));
            }
            2 if jump && step < 40 => {
                let n = if ctx.rng.chance(1, 8) { 66000 } else { 300 };
                for _ in 0..n { let q = pt3(&mut ctx.rng, d); m.add_vertex(q.clone()); t.v.push(rp(&q)); }
                log.push_str(&format!("add {} vertices ", n));
            }
            2..=3 => {
                if t.v.is_empty() { ensure!(m.change_vertex(VId(0), p(0., 0., 0.)).is_err(), "edit-change-empty", "a vertex of an empty mesh could be changed"); continue; }
                let i = ctx.rng.below(t.v.len());
                let q = pt3(&mut ctx.rng, d);
                if logging { log.push_str(&format!("change_vertex {} ", i)); }
                ensure!(m.change_vertex(VId(i), q.clone()).is_ok(), "edit-change", "changing vertex {} of {} failed; {}", i, t.v.len(), log);
                t.v[i] = rp(&q);
            }
            4 => {
                let i = *ctx.rng.pick(&beyond(t.v.len()));
                let r = m.change_vertex(VId(i), p(1., 1., 1.));
                ensure!(r.is_err(), "edit-change-oob", "changing vertex {} of {} succeeded; {}", i, t.v.len(), log);
                ctx.count("rejected_edits", 1);
            }
            5 => {
                let q = [pt3(&mut ctx.rng, d), pt3(&mut ctx.rng, d), pt3(&mut ctx.rng, d)];
                let n = t.v.len();
                let id = m.add_face(q[0].clone(), q[1].clone(), q[2].clone());
                if logging { log.push_str(&format!("add_face -> {} ", id.0)); }
                ensure!(id.0 == t.f.len(), "edit-add-face", "add_face returned {} for face {}; {}", id.0, t.f.len(), log);
                for x in q.iter() { t.v.push(rp(x)); }
                t.f.push([n, n + 1, n + 2]);
            }
            6..=9 => {
                if t.v.len() < 3 { continue; }
                let n = t.v.len();
                let mut f = [ctx.rng.below(n), ctx.rng.below(n), ctx.rng.below(n)];
                if ctx.rng.chance(1, 3) { let k = n - 1 - ctx.rng.below(n.min(4)); let w = ctx.rng.below(3); f[w] = k; }
                if ctx.rng.chance(1, 5) { let w = ctx.rng.below(3); f[w] = *ctx.rng.pick(&beyond(n)); }
                let bad_id = f.iter().any(|x| *x >= n);
                let dup = f[0] == f[1] || f[0] == f[2] || f[1] == f[2];
                let r = m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2]));
                if logging { log.push_str(&format!("try_add_connection {:?} -> {:?} ", f, r.is_ok())); }
                if bad_id || dup {
                    ensure!(r.is_err(), "edit-connect-bad", "connecting {:?} of {} vertices succeeded; {}", f, n, log);
                    ctx.count("rejected_edits", 1);
                } else {
                    match r { Ok(id) => ensure!(id.0 == t.f.len(), "edit-connect-id", "face {} was added as {}; {}", t.f.len(), id.0, log), Err(e) => return fail("edit-connect", format!("connecting {:?} of {} vertices failed: {:?}; {}", f, n, e, log)) }
                    t.f.push(f);
                    ctx.count("connections", 1);
                    if n > 256 { ctx.count("connections_beyond_256_vertices", 1); }
                    if n > 65536 { ctx.count("connections_beyond_65536_vertices", 1); }
                }
            }
            10 => { let n = ctx.rng.below(200); if ctx.rng.bool() { m.reserve_vertices(n) } else { m.reserve_faces(n) } }
            11 => {
                let q = (ctx.rng.range(-8, 8) as f64, ctx.rng.range(-800, 800) as f64 / 8.0, coord(&mut ctx.rng, d));
                if logging { log.push_str(&format!("move_by {:?} ", q)); }
                m.move_by(q.0, q.1, q.2);
                for v in t.v.iter_mut() { *v = p(ID::mv(v.x, q.0), ID::mv(v.y, q.1), ID::mv(v.z, q.2)); }
                ctx.count("moves", 1);
            }
            _ => {
                match ctx.rng.below(3) {
                    0 => { snap = Some((m.clone(), t.clone())); }
                    1 => { let (pc, ix): (ID, IC) = m.into(); m = Mesh3D::from((pc, ix)); }
                    _ => { if let Some((ms, ts)) = snap.take() { mesh_equals(ctx, &ms, &ts, true, "clone")?; ctx.count("clones", 1); } }
                }
            }
        }
        ctx.count("edits", 1);
        mesh_equals(ctx, &m, &t, t.v.len() < 24, &log)?;
    }
    if ctx.want_desc { ctx.note(&log); }
    mesh_equals(ctx, &m, &t, true, &log)?;
    // bulk queries
    if let Some((ms, ts)) = snap.take() { mesh_equals(ctx, &ms, &ts, true, "clone")?; ctx.count("clones", 1); }
    if t.f.len() > 1 { ctx.nontrivial = true; }
    Ok(())
}
fn editing(ctx: &mut Ctx) -> R {
    match ctx.rng.below(12) {
        0 => edits::<Vec<Point3D>, Vec<usize>>(ctx),
        1 => edits::<Vec<Point3D>, U32IndexVec>(ctx),
        2 => edits::<Vec<Point3D>, DynamicPrecisionIndexVec>(ctx),
        3 => edits::<PC, Vec<usize>>(ctx),
        4 => edits::<PC, U32IndexVec>(ctx),
        5 => edits::<PC, DynamicPrecisionIndexVec>(ctx),
        6 => edits::<VecDeque<Point3D>, Vec<usize>>(ctx),
        7 => edits::<VecDeque<Point3D>, U32IndexVec>(ctx),
        8 => edits::<VecDeque<Point3D>, DynamicPrecisionIndexVec>(ctx),
        9 => edits::<PointCloud3Df32<Point3D>, Vec<usize>>(ctx),
        10 => edits::<PointCloud3Df32<Point3D>, U32IndexVec>(ctx),
        _ => edits::<PointCloud3Df32<Point3D>, DynamicPrecisionIndexVec>(ctx),
    }
}

// ---------------------------------------------------------------- C13
const EDGE_VALUES: [usize; 22] = [0, 1, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, usize::MAX - 1, usize::MAX];
fn index_value(ctx: &mut Ctx, limit: usize) -> usize {
    let v = match ctx.rng.below(8) {
        0..=2 => *ctx.rng.pick(&EDGE_VALUES),
        3 => ctx.rng.below(256),
        4 => ctx.rng.below(70000),
        5 => ctx.rng.u64() as usize >> ctx.rng.below(64),
        6 if !ctx.dict.ints.is_empty() => { let i = ctx.rng.below(ctx.dict.ints.len()); ctx.dict.ints[i] as usize }
        _ => ctx.rng.below(10),
    };
    if v > limit { v % (limit.wrapping_add(1)) } else { v }
}
fn ic_equals<IC: rust_3d::IsIndexContainer>(c: &IC, m: &[usize], log: &str) -> R {
    ensure!(rust_3d::IsIndexContainer::len(c) == m.len(), "ic-len", "len() = {}, expected {}; {}", rust_3d::IsIndexContainer::len(c), m.len(), log);
    for i in 0..m.len() { let g = rust_3d::IsIndexContainer::get(c, i); ensure!(g == m[i], "ic-get", "element {} is {}, expected {}; {}", i, g, m[i], log); }
    let it: Vec<usize> = rust_3d::IsIndexContainer::iter(c).collect();
    ensure!(it == m, "ic-iter", "iteration yields {:?}, expected {:?}; {}", &it[..it.len().min(30)], &m[..m.len().min(30)], log);
    Ok(())
}
fn width_of(x: usize) -> u8 { if x <= 255 { 1 } else if x <= 65535 { 2 } else if x <= 0xffff_ffff { 4 } else { 8 } }
fn index_ops<IC: rust_3d::IsIndexContainer>(ctx: &mut Ctx, limit: usize, check: &mut dyn FnMut(&mut IC, &[usize], usize, &str) -> R) -> R {
    let mut need = 0usize; // largest value ever stored or announced
    let mut log = String::new();
    let mut c: IC = match ctx.rng.below(4) {
        0 => IC::default(),
        1 => { let n = ctx.rng.below(50); log.push_str("with_capacity "); IC::with_capacity(n) }
        2 => { let x = index_value(ctx, limit); need = x; log.push_str(&format!("with_support_for {} ", x)); IC::with_support_for(x) }
        _ => { let x = index_value(ctx, limit); need = x; log.push_str(&format!("with_capacity_and_support_for 10 {} ", x)); IC::with_capacity_and_support_for(10, x) }
    };
    let mut m: Vec<usize> = vec![];
    let small = ctx.rng.chance(1, 3);
    let lim2 = if small { *ctx.rng.pick(&[255usize, 256, 65535, 65536, 0xffff_ffff]) } else { limit };
    let lim = limit.min(lim2);
    let n = if ctx.rng.chance(1, 12) { 300 } else { 1 + ctx.rng.below(40) };
    for _ in 0..n {
        match ctx.rng.below(9) {
            0..=3 => { let x = index_value(ctx, lim); ctx.fpu(x as u64); log.push_str(&format!("push {} ", x)); c.push(x); m.push(x); need = need.max(x); }
            4..=5 => { if m.is_empty() { continue; } let i = ctx.rng.below(m.len()); let x = index_value(ctx, lim); ctx.fpu(x as u64 ^ (i as u64) << 40); log.push_str(&format!("set {} {} ", i, x)); c.set(i, x); m[i] = x; need = need.max(x); }
            6 => { let k = ctx.rng.below(100); c.reserve(k); log.push_str("reserve "); }
            7 => { let x = index_value(ctx, lim); log.push_str(&format!("ensure_supported {} ", x)); c.ensure_supported(x); need = need.max(x); }
            _ => { let d = c.clone(); ic_equals(&d, &m, &log)?; if ctx.rng.bool() { c = d; } log.push_str("clone "); }
        }
        ctx.count("index_ops", 1);
        ic_equals(&c, &m, &log)?;
        check(&mut c, &m, need, &log)?;
    }
    if ctx.want_desc { ctx.note(&log); }
    if m.iter().any(|x| *x > 255) && m.iter().any(|x| *x < 256) { ctx.nontrivial = true; ctx.count("mixed_widths", 1); }
    Ok(())
}
fn dyn_width(c: &mut DynamicPrecisionIndexVec) -> (u8, usize) {
    let a = [c.get_u8().is_some(), c.get_u16().is_some(), c.get_u32().is_some(), c.get_usize().is_some()];
    (match a { [true, false, false, false] => 1, [false, true, false, false] => 2, [false, false, true, false] => 4, [false, false, false, true] => 8, _ => 0 }, a.iter().filter(|x| **x).count())
}
fn dyn_content(c: &mut DynamicPrecisionIndexVec) -> Vec<usize> {
    if let Some(v) = c.get_u8() { return v.iter().map(|x| *x as usize).collect(); }
    if let Some(v) = c.get_u16() { return v.iter().map(|x| *x as usize).collect(); }
    if let Some(v) = c.get_u32() { return v.iter().map(|x| *x as usize).collect(); }
    if let Some(v) = c.get_usize() { return v.clone(); }
    vec![usize::MAX]
}
fn dyn_check(c: &mut DynamicPrecisionIndexVec, m: &[usize], need: usize, log: &str) -> R {
    let (w, n) = dyn_width(c);
    ensure!(n == 1, "dyn-views", "{} of the four views are available; {}", n, log);
    ensure!(w == width_of(need), "dyn-width", "{} byte storage although {} is the largest value so far; {}", w, need, log);
    ensure!(dyn_content(c) == m, "dyn-view", "the raw view holds {:?}, expected {:?}; {}", dyn_content(c), m, log);
    let a = (c.get_u8_mut().is_some(), c.get_u16_mut().is_some(), c.get_u32_mut().is_some(), c.get_usize_mut().is_some());
    ensure!(a == (w == 1, w == 2, w == 4, w == 8), "dyn-views-mut", "mutable views {:?} at width {}; {}", a, w, log);
    Ok(())
}
fn indices(ctx: &mut Ctx) -> R {
    match ctx.rng.below(4) {
        0 => index_ops::<Vec<usize>>(ctx, usize::MAX, &mut |_, _, _, _| Ok(()))?,
        1 => index_ops::<U32IndexVec>(ctx, u32::MAX as usize, &mut |c, m, _, log| {
            ensure!(c.data.len() == m.len(), "u32-data", "data has {} elements, expected {}; {}", c.data.len(), m.len(), log);
            Ok(())
        })?,
        2 => {
            index_ops::<DynamicPrecisionIndexVec>(ctx, usize::MAX, &mut dyn_check)?;
            ctx.count("dynamic_histories", 1);
        }
        _ => {
            // conversions
            let n = size(ctx, 400);
            let lim = *ctx.rng.pick(&[255usize, 256, 65535, 65536, u32::MAX as usize, usize::MAX]);
            let m: Vec<usize> = (0..n).map(|_| index_value(ctx, lim)).collect();
            for x in &m { ctx.fpu(*x as u64); }
            let max = m.iter().cloned().max().unwrap_or(0);
            let what = format!("conversion of {:?}", &m[..m.len().min(30)]);
            let mut all: Vec<DynamicPrecisionIndexVec> = vec![DynamicPrecisionIndexVec::from(&m), DynamicPrecisionIndexVec::from(m.clone())];
            if max <= 0xffff_ffff { let v: Vec<u32> = m.iter().map(|x| *x as u32).collect(); all.push(DynamicPrecisionIndexVec::from(&v)); all.push(DynamicPrecisionIndexVec::from(v)); }
            if max <= 0xffff { let v: Vec<u16> = m.iter().map(|x| *x as u16).collect(); all.push(DynamicPrecisionIndexVec::from(&v)); all.push(DynamicPrecisionIndexVec::from(v)); }
            if max <= 0xff { let v: Vec<u8> = m.iter().map(|x| *x as u8).collect(); all.push(DynamicPrecisionIndexVec::from(&v)); all.push(DynamicPrecisionIndexVec::from(v)); }
            for c in all.iter_mut() { ic_equals(c, &m, &what)?; dyn_check(c, &m, max, &what)?; ctx.count("conversions", 1); }
            let mut c = all.pop().unwrap();
            ensure!(*c.get_usize_upgraded() == m, "dyn-upgrade", "upgraded view differs; {}", what);
            ensure!(dyn_width(&mut c).0 == 8, "dyn-upgrade-width", "upgrading did not lead to usize storage; {}", what);
            c.get_usize_upgraded_mut().push(usize::MAX);
            let mut m2 = m.clone();
            m2.push(usize::MAX);
            ic_equals(&c, &m2, &what)?;
            // the mutable narrow views
            let mut c = DynamicPrecisionIndexVec::from(&m);
            let w = dyn_width(&mut c).0;
            let mut m3 = m.clone();
            m3.push(7);
            match w { 1 => c.get_u8_mut().map(|v| v.push(7)), 2 => c.get_u16_mut().map(|v| v.push(7)), 4 => c.get_u32_mut().map(|v| v.push(7)), _ => c.get_usize_mut().map(|v| v.push(7)) };
            ic_equals(&c, &m3, &what)?;
            ensure!(dyn_width(&mut DynamicPrecisionIndexVec::new()).0 == 1, "dyn-new", "a new container does not start with u8");
            if n > 1 { ctx.nontrivial = true; }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19
fn read<M: IsMesh<Point3D, Face3>>(m: &M) -> Result<Tri, Fail> {
    let mut t = Tri::default();
    for i in 0..m.num_vertices() { match m.vertex(VId(i)) { Some(v) => t.v.push(v), None => return fail("mesh-hole", format!("vertex {} of {} missing", i, m.num_vertices())) } }
    for i in 0..m.num_faces() {
        match m.face_vertex_ids(FId(i)) { Some(f) => { let f = [f.a.0, f.b.0, f.c.0]; ensure!(f.iter().all(|x| *x < t.v.len()), "mesh-index", "face {} refers to a vertex out of range: {:?}", i, f); t.f.push(f) } None => return fail("mesh-hole", format!("face {} missing", i)) }
    }
    Ok(t)
}
fn canon<T: Ord + Clone>(f: [T; 3]) -> [T; 3] {
    let mut best = f.clone();
    for k in 1..3 { let g = [f[k].clone(), f[(k + 1) % 3].clone(), f[(k + 2) % 3].clone()]; if g < best { best = g; } }
    best
}
/// key of a position such that equal positions (0.0 == -0.0) have equal keys
fn kz(q: &Point3D) -> [u64; 3] { [(q.x + 0.0).to_bits(), (q.y + 0.0).to_bits(), (q.z + 0.0).to_bits()] }

fn heal_check(ctx: &mut Ctx, t: &Tri, o: &Tri) -> R {
    let mut want: BTreeSet<[[u64; 3]; 3]> = BTreeSet::new();
    let mut degenerate = 0;
    for f in &t.f {
        let k = [kz(&t.v[f[0]]), kz(&t.v[f[1]]), kz(&t.v[f[2]])];
        if k[0] == k[1] || k[0] == k[2] || k[1] == k[2] { degenerate += 1; continue; }
        want.insert(canon(k));
    }
    ctx.count("degenerate_faces_in", degenerate);
    ctx.count("duplicate_faces_in", t.f.len() as u64 - degenerate - want.len() as u64);
    if degenerate > 0 && want.len() > 1 { ctx.nontrivial = true; }
    let mut got: BTreeSet<[[u64; 3]; 3]> = BTreeSet::new();
    for f in &o.f {
        let k = [kz(&o.v[f[0]]), kz(&o.v[f[1]]), kz(&o.v[f[2]])];
        ensure!(k[0] != k[1] && k[0] != k[2] && k[1] != k[2], "heal-degenerate", "the healed mesh holds a degenerate face {:?} {:?}", f, [&o.v[f[0]], &o.v[f[1]], &o.v[f[2]]]);
        ensure!(got.insert(canon(k)), "heal-duplicate", "the healed mesh holds face {:?} more than once; input {}", [&o.v[f[0]], &o.v[f[1]], &o.v[f[2]]], show(t));
    }
    ensure!(got == want, "heal-faces", "{} different proper faces in the input, {} in the result; {} lost, {} new; input {}", want.len(), got.len(), want.difference(&got).count(), got.difference(&want).count(), show(t));
    let vs: BTreeSet<[u64; 3]> = o.v.iter().map(kz).collect();
    ensure!(vs.len() == o.v.len(), "heal-vertices", "{} vertices at {} positions in the healed mesh", o.v.len(), vs.len());
    Ok(())
}
fn messy(ctx: &mut Ctx) -> Tri {
    let huge = !ctx.tiny && ctx.rng.chance(1, 3000);
    if huge { ctx.count("meshes_beyond_u16_vertices", 1); }
    let mut t = if huge { match ctx.rng.below(2) {
        0 => { let (w, h) = (256 + ctx.rng.below(40), 256 + ctx.rng.below(40)); let mut t = grid(w, h, false, false); scramble(ctx, &mut t); t }
        _ => { let n = 66_000 + ctx.rng.below(3000); let d = *ctx.rng.pick(&[Dist::Uniform, Dist::Grid]); soup(ctx, n, n, d) }
    } } else { match ctx.rng.below(4) {
        0 => { let (nv, nf) = (3 + ctx.rng.below(6), ctx.rng.below(30)); soup(ctx, nv, nf, Dist::Grid) }
        1 => { let (nv, nf) = (3 + ctx.rng.below(60), size(ctx, 120)); let d = *ctx.rng.pick(&DISTS); soup(ctx, nv, nf, d) }
        _ => manifold(ctx, false),
    } };
    // vertices that share their position
    for _ in 0..ctx.rng.below(4) { let n = t.v.len(); let (a, b) = (ctx.rng.below(n), ctx.rng.below(n)); t.v[a] = t.v[b].clone(); }
    if ctx.rng.chance(1, 5) { let n = t.v.len(); let a = ctx.rng.below(n); t.v[a].x = if ctx.rng.bool() { 0.0 } else { -0.0 }; let b = ctx.rng.below(n); t.v[b] = Point3D { x: -t.v[a].x, ..t.v[a].clone() }; if t.v[a].x != 0.0 { t.v[b] = t.v[a].clone(); } }
    // faces that repeat, rotated or flipped
    for _ in 0..ctx.rng.below(6) {
        if t.f.is_empty() { break; }
        let i = ctx.rng.below(t.f.len());
        let mut f = t.f[i];
        let k = ctx.rng.below(3);
        f.rotate_left(k);
        if ctx.rng.chance(1, 4) { f.swap(0, 1); }
        let at = ctx.rng.below(t.f.len() + 1);
        t.f.insert(at, f);
    }
    // unshared vertices
    if ctx.rng.chance(1, 3) {
        let mut o = Tri::default();
        for f in &t.f { let n = o.v.len(); for k in 0..3 { o.v.push(t.v[f[k]].clone()); } o.f.push([n, n + 1, n + 2]); }
        if ctx.rng.bool() { t = o; }
    }
    t
}
fn heal(ctx: &mut Ctx) -> R {
    let t = messy(ctx);
    fp_tri(ctx, &t);
    if ctx.want_desc { let s = show(&t); ctx.note(s); }
    let o = match ctx.rng.below(3) {
        0 => { let m: MV = build(&t)?; let h = heal_mesh(&m).map_err(|e| Fail { sig: "heal-error".into(), detail: format!("healing failed: {:?}; {}", e, show(&t)) })?; read(&h)? }
        1 => { let m: MU = build(&t)?; let h = heal_mesh(&m).map_err(|e| Fail { sig: "heal-error".into(), detail: format!("healing failed: {:?}; {}", e, show(&t)) })?; read(&h)? }
        _ => {
            let m: MD = build(&t)?;
            let h = heal_mesh(&m).map_err(|e| Fail { sig: "heal-error".into(), detail: format!("healing failed: {:?}; {}", e, show(&t)) })?;
            let o = read(&h)?;
            let again = heal_mesh(&h).map_err(|e| Fail { sig: "heal-error".into(), detail: format!("healing again failed: {:?}", e) })?;
            let o2 = read(&again)?;
            ensure!(o2.f.len() == o.f.len() && o2.v.len() <= o.v.len(), "heal-idempotent", "healing a healed mesh changes it: {} faces then {}", o.f.len(), o2.f.len());
            o
        }
    };
    ctx.count("healed", 1);
    heal_check(ctx, &t, &o)
}
fn cluster(ctx: &mut Ctx) -> R {
    let mut t = messy(ctx);
    // axes with very many cells
    if ctx.rng.chance(1, 3) {
        for k in 0..3 {
            let f = *ctx.rng.pick(&[1.0, 1.0, 16.0, 64.0, 256.0, 1024.0, 65536.0, 131072.0]);
            for q in t.v.iter_mut() { match k { 0 => q.x *= f, 1 => q.y *= f, _ => q.z *= f } }
        }
    }
    // far beyond what 32 bits can count
    if ctx.rng.chance(1, 40) {
        let (k, f) = (ctx.rng.below(3), *ctx.rng.pick(&[4294967296.0, 1099511627776.0]));
        for q in t.v.iter_mut() { match k { 0 => q.x *= f, 1 => q.y *= f, _ => q.z *= f } }
    }
    let exact = t.v.iter().all(|q| q.x * 8.0 == (q.x * 8.0).trunc() && q.y * 8.0 == (q.y * 8.0).trunc() && q.z * 8.0 == (q.z * 8.0).trunc() && q.x.abs() < 1e14 && q.y.abs() < 1e14 && q.z.abs() < 1e14);
    if ctx.rng.chance(2, 3) {
        // spread, so that several cells exist on each axis
        let (a, b) = (p(-10., -10., -10.), p(12., 11., 14.));
        t.v.push(a); t.v.push(b);
        if ctx.rng.bool() { let n = t.v.len(); let k = ctx.rng.below(n); t.f.push([n - 2, n - 1, k]); if k >= n - 2 { t.f.pop(); } }
    }
    fp_tri(ctx, &t);
    let size = if exact { *ctx.rng.pick(&[0.25, 0.5, 1.0, 2.0, 4.0, 8.0]) } else { match ctx.rng.below(3) { 0 => ctx.rng.f(0.01, 1.0), 1 => ctx.rng.f(0.5, 20.0), _ => 1.0 } };
    ctx.fpf(size);
    if ctx.want_desc { let s = format!("cluster size {} {}", size, show(&t)); ctx.note(s); }
    let m: MP = build(&t)?;
    let r = cluster_vertices(&m, size);
    // reference cells
    let lo = |g: fn(&Point3D) -> f64| t.v.iter().map(g).fold(f64::INFINITY, f64::min);
    let hi = |g: fn(&Point3D) -> f64| t.v.iter().map(g).fold(f64::NEG_INFINITY, f64::max);
    let g: [fn(&Point3D) -> f64; 3] = [|q| q.x, |q| q.y, |q| q.z];
    let l: Vec<f64> = g.iter().map(|f| lo(*f)).collect();
    let h: Vec<f64> = g.iter().map(|f| hi(*f)).collect();
    // bounding boxes need an extent on every axis
    let flat = (0..3).any(|k| !(h[k] - l[k] > 0.0));
    if flat { ensure!(r.is_err(), "cluster-flat", "clustering a mesh without volume succeeded"); return Ok(()); }
    let cells: Vec<f64> = (0..3).map(|k| (h[k] - l[k]) / size).collect();
    let slack = if exact { 0.0 } else { 1e-9 };
    if cells.iter().any(|c| *c < 2.0 - slack) { ensure!(r.is_err(), "cluster-too-big", "clustering with {} cells per axis succeeded", cells.iter().cloned().fold(f64::INFINITY, f64::min)); ctx.count("too_big", 1); return Ok(()); }
    if cells.iter().any(|c| *c < 2.0 + slack) && r.is_err() { return Ok(()); }
    let o = match r { Ok(m) => read(&m)?, Err(e) => return fail("cluster-error", format!("clustering with size {} failed: {:?}; {}", size, e, show(&t))) };
    // don't care if a vertex sits on a cell border up to rounding
    let cell = |q: &Point3D| -> Option<[i64; 3]> {
        let mut c = [0; 3];
        for k in 0..3 {
            let x = (g[k](q) - l[k]) / size;
            if !exact && ((x - x.round()).abs() < 1e-9 * (1.0 + x.abs())) && g[k](q) != l[k] { return None; }
            if x > 1e15 { return None; }
            c[k] = x.floor() as i64;
        }
        Some(c)
    };
    let cs: Vec<Option<[i64; 3]>> = t.v.iter().map(cell).collect();
    if cs.iter().any(|c| c.is_none()) { return Ok(()); }
    let cs: Vec<[i64; 3]> = cs.into_iter().map(|c| c.unwrap()).collect();
    let pos: BTreeMap<[u64; 3], [i64; 3]> = t.v.iter().zip(cs.iter()).map(|(q, c)| (kz(q), *c)).collect();
    let mut rep: BTreeMap<[i64; 3], [u64; 3]> = BTreeMap::new();
    for q in &o.v {
        let c = match pos.get(&kz(q)) { Some(c) => *c, None => return fail("cluster-position", format!("vertex {:?} of the result is no vertex of the input; size {} {}", q, size, show(&t))) };
        ensure!(rep.insert(c, kz(q)).is_none(), "cluster-cell", "two vertices of the result lie in one cell of size {}; {}", size, show(&t));
    }
    let mut want: BTreeSet<[[i64; 3]; 3]> = BTreeSet::new();
    for f in &t.f { let k = [cs[f[0]], cs[f[1]], cs[f[2]]]; if k[0] != k[1] && k[0] != k[2] && k[1] != k[2] { want.insert(canon(k)); } }
    let mut got = BTreeSet::new();
    for f in &o.f {
        let k = [pos[&kz(&o.v[f[0]])], pos[&kz(&o.v[f[1]])], pos[&kz(&o.v[f[2]])]];
        ensure!(k[0] != k[1] && k[0] != k[2] && k[1] != k[2], "cluster-degenerate", "a degenerate face is left");
        ensure!(got.insert(canon(k)), "cluster-duplicate", "a face appears twice after clustering");
    }
    ensure!(got == want, "cluster-faces", "{} faces between cells expected, {} found, {} lost, {} new; size {} {}", want.len(), got.len(), want.difference(&got).count(), got.difference(&want).count(), size, show(&t));
    ctx.count("clustered", 1);
    if cells.iter().any(|c| *c > 256.0) { ctx.count("clustered_beyond_u8_cells", 1); }
    if cells.iter().any(|c| *c > 65536.0) { ctx.count("clustered_beyond_u16_cells", 1); }
    if cells.iter().any(|c| *c > 4294967296.0) { ctx.count("clustered_beyond_u32_cells", 1); }
    if want.len() < t.f.len() && !want.is_empty() { ctx.count("clustered_collapsing", 1); ctx.nontrivial = true; }
    Ok(())
}
fn healing(ctx: &mut Ctx) -> R { if ctx.rng.bool() { heal(ctx) } else { cluster(ctx) } }

// ---------------------------------------------------------------- C20
fn subdivision(ctx: &mut Ctx) -> R {
    let d = *ctx.rng.pick(&DISTS);
    let t = match ctx.rng.below(3) { 0 => { let (nv, nf) = (3 + ctx.rng.below(10), ctx.rng.below(20)); soup(ctx, nv, nf, d) } , _ => surface(ctx) };
    fp_tri(ctx, &t);
    if ctx.want_desc { let s = format!("subdivide {}", show(&t)); ctx.note(s); }
    let m: MP = build(&t)?;
    let r: rust_3d::Result<MD> = if ctx.rng.bool() { subdivide::linear(&m) } else { let s: SearchableMesh<MP, Point3D, U32IndexVec> = SearchableMesh::new(m.clone()); subdivide::linear(&s) };
    let o = match r { Ok(o) => read(&o)?, Err(e) => return fail("sub-error", format!("subdividing failed: {:?}; {}", e, show(&t))) };
    let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
    for f in &t.f { for k in 0..3 { let (a, b) = (f[k], f[(k + 1) % 3]); edges.insert((a.min(b), a.max(b))); } }
    let nv = t.v.len();
    ensure!(o.v.len() == nv + edges.len(), "sub-vertices", "{} vertices and {} edges became {} vertices", nv, edges.len(), o.v.len());
    ensure!(o.f.len() == 4 * t.f.len(), "sub-faces", "{} faces became {}", t.f.len(), o.f.len());
    for i in 0..nv { ensure!(same(&o.v[i], &t.v[i]), "sub-kept", "vertex {} moved from {:?} to {:?}", i, t.v[i], o.v[i]); }
    // one new vertex per edge, identified through the faces, at the middle of its edge
    let mut mids: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut used: BTreeSet<usize> = BTreeSet::new();
    for (i, f) in t.f.iter().enumerate() {
        let four: BTreeSet<[usize; 3]> = o.f[4 * i..4 * i + 4].iter().map(|g| canon(*g)).collect();
        // corner faces define the midpoints
        let mut mid = [usize::MAX; 3];
        for k in 0..3 {
            let corner = four.iter().find(|g| g.contains(&f[k]));
            let g = match corner { Some(g) => g, None => return fail("sub-corner", format!("no sub face of face {} holds its corner {}", i, f[k])) };
            let at = g.iter().position(|x| *x == f[k]).unwrap();
            let (n, pv) = (g[(at + 1) % 3], g[(at + 2) % 3]);
            let (e_out, e_in) = (k, (k + 2) % 3);
            for (e, v) in [(e_out, n), (e_in, pv)].iter() {
                ensure!(*v >= nv, "sub-corner-shape", "sub face {:?} of face {} connects old vertices", g, i);
                if mid[*e] == usize::MAX { mid[*e] = *v; } else { ensure!(mid[*e] == *v, "sub-orientation", "the sub faces of face {:?} do not share the middle of its edges with the right orientation: {:?}", f, four); }
            }
        }
        ensure!(four.contains(&canon([mid[0], mid[1], mid[2]])) && four.len() == 4, "sub-middle", "the middle sub face of face {:?} is missing or has the wrong orientation: {:?}", f, four);
        for k in 0..3 {
            let (a, b) = (f[k], f[(k + 1) % 3]);
            let key = (a.min(b), a.max(b));
            match mids.get(&key) {
                Some(v) => ensure!(*v == mid[k], "sub-shared", "edge {:?} got two middle vertices", key),
                None => { ensure!(used.insert(mid[k]), "sub-unique", "vertex {} is the middle of two edges", mid[k]); mids.insert(key, mid[k]); }
            }
            let (q, r, g) = (&t.v[a], &t.v[b], &o.v[mid[k]]);
            let mid = |g: f64, a: f64, b: f64| (g - (a / 2.0 + b / 2.0)).abs() <= 1e-14 * (a.abs() + b.abs());
            let ok = mid(g.x, q.x, r.x) && mid(g.y, q.y, r.y) && mid(g.z, q.z, r.z);
            ensure!(ok, "sub-mid", "the middle of {:?} and {:?} is {:?}", q, r, g);
        }
    }
    ctx.count("subdivided_faces", t.f.len() as u64);
    if t.f.len() > 1 { ctx.nontrivial = true; }
    // faces that use a vertex twice can only enter unchecked; they are refused instead of being mangled
    if ctx.rng.chance(1, 8) && !t.f.is_empty() {
        let mut ix: Vec<usize> = t.f.iter().flat_map(|f| f.to_vec()).collect();
        let k = ctx.rng.below(t.f.len());
        let (a, b) = *ctx.rng.pick(&[(0, 1), (0, 2), (1, 2)]);
        ix[3 * k + a] = ix[3 * k + b];
        let m = MV::from((t.v.clone(), ix));
        let r: rust_3d::Result<MV> = subdivide::linear(&m);
        ensure!(r.is_err(), "sub-degenerate", "a face that uses a vertex twice was subdivided");
        ctx.count("subdivide_rejected", 1);
    }
    Ok(())
}

fn orientable_components(t: &Tri) -> Option<(Vec<usize>, Vec<bool>)> {
    // component of each face and whether it must be flipped relative to the component's first face; None if an edge has more than two faces or a component is not orientable
    let mut edges: BTreeMap<(usize, usize), Vec<usize>> = BTreeMap::new();
    for (i, f) in t.f.iter().enumerate() { for k in 0..3 { let (a, b) = (f[k], f[(k + 1) % 3]); edges.entry((a.min(b), a.max(b))).or_default().push(i); } }
    if edges.values().any(|v| v.len() > 2) { return None; }
    let has = |f: &[usize; 3], a: usize, b: usize| (0..3).any(|k| f[k] == a && f[(k + 1) % 3] == b);
    let n = t.f.len();
    let mut comp = vec![usize::MAX; n];
    let mut flip = vec![false; n];
    for s in 0..n {
        if comp[s] != usize::MAX { continue; }
        comp[s] = s;
        let mut todo = vec![s];
        while let Some(i) = todo.pop() {
            for k in 0..3 {
                let (a, b) = (t.f[i][k], t.f[i][(k + 1) % 3]);
                for j in &edges[&(a.min(b), a.max(b))] {
                    if *j == i { continue; }
                    let fl = if has(&t.f[*j], a, b) { !flip[i] } else { flip[i] };
                    if comp[*j] == usize::MAX { comp[*j] = s; flip[*j] = fl; todo.push(*j); } else if flip[*j] != fl { return None; }
                }
            }
        }
    }
    Some((comp, flip))
}
fn unify(ctx: &mut Ctx) -> R {
    // the bitvec dependency keeps pointers as integers, which the interpreter can't follow
    if cfg!(miri) { return subdivision(ctx); }
    let mut t = match ctx.rng.below(12) {
        0 => {
            // Moebius strip: not orientable
            let n = 5 + ctx.rng.below(6);
            let mut t = Tri::default();
            for i in 0..n { t.v.push(p(i as f64, 0., (i % 2) as f64)); t.v.push(p(i as f64, 2., (i % 3) as f64)); }
            for i in 0..n {
                let (a, b) = (2 * i, 2 * i + 1);
                let (c, d) = if i + 1 < n { (2 * i + 2, 2 * i + 3) } else { (1, 0) };
                t.f.push([a, c, b]); t.f.push([b, c, d]);
            }
            t
        }
        1 => { let (nv, nf) = (3 + ctx.rng.below(20), ctx.rng.below(30)); soup(ctx, nv, nf, Dist::Grid) }
        _ => surface(ctx),
    };
    if ctx.rng.chance(1, 3) { for q in t.v.iter_mut() { *q = pt3(&mut ctx.rng, Dist::Uniform); } }
    let density = ctx.rng.below(4);
    for f in t.f.iter_mut() { if density > 0 && ctx.rng.chance(density as u64, 6) { f.swap(1, 2); } }
    fp_tri(ctx, &t);
    if ctx.want_desc { let s = format!("unify {}", show(&t)); ctx.note(s); }
    let o = match ctx.rng.below(3) {
        0 => { let m: MV = build(&t)?; unify_faces(&m).map(|m| read(&m)) }
        1 => { let m: MD = build(&t)?; unify_faces(&m).map(|m| read(&m)) }
        _ => { let m: MU = build(&t)?; unify_faces(&m).map(|m| read(&m)) }
    };
    let o = match o { Ok(o) => o?, Err(e) => return fail("unify-error", format!("unifying failed: {:?}; {}", e, show(&t))) };
    ensure!(o.v.len() == t.v.len() && o.f.len() == t.f.len(), "unify-count", "{} vertices {} faces became {} and {}", t.v.len(), t.f.len(), o.v.len(), o.f.len());
    for i in 0..t.v.len() { ensure!(same(&o.v[i], &t.v[i]), "unify-vertex", "vertex {} changed", i); }
    let mut flipped = vec![false; t.f.len()];
    for i in 0..t.f.len() {
        let (a, b) = (canon(t.f[i]), canon(o.f[i]));
        let fl = canon([t.f[i][0], t.f[i][2], t.f[i][1]]);
        ensure!(b == a || b == fl, "unify-face", "face {} was {:?} and is now {:?}", i, t.f[i], o.f[i]);
        flipped[i] = b != a;
    }
    if let Some((comp, flip)) = orientable_components(&t) {
        ctx.count("unified_orientable", 1);
        for i in 0..t.f.len() {
            let c = comp[i];
            ensure!(flipped[i] ^ flip[i] == flipped[c] ^ flip[c], "unify-orientation", "faces {} {:?} and {} {:?} are connected over edges but end up with different orientations; {}", c, o.f[c], i, o.f[i], show(&t));
        }
        if flip.iter().any(|x| *x) { ctx.count("unified_mixed", 1); ctx.nontrivial = true; }
    } else { ctx.count("unified_not_orientable", 1); }
    Ok(())
}
fn cross3(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn sub3(a: &Point3D, b: &Point3D) -> [f64; 3] { [a.x - b.x, a.y - b.y, a.z - b.z] }
fn len3(a: [f64; 3]) -> f64 { (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt() }
fn normals(ctx: &mut Ctx) -> R {
    let d = *ctx.rng.pick(&[Dist::Dyadic, Dist::Uniform, Dist::Grid, Dist::Grid, Dist::Small, Dist::Large, Dist::Tiny, Dist::Huge]);
    let t = match ctx.rng.below(3) { 0 => { let (nv, nf) = (3 + ctx.rng.below(20), ctx.rng.below(30)); soup(ctx, nv, nf, d) } , _ => surface(ctx) };
    fp_tri(ctx, &t);
    if ctx.want_desc { let s = format!("normals {}", show(&t)); ctx.note(s); }
    let m: MP = build(&t)?;
    let mut sums = vec![[0.0; 3]; t.v.len()];
    let mut tainted = vec![false; t.v.len()]; // has a (nearly) degenerate face: the normal is a convention
    for (i, f) in t.f.iter().enumerate() {
        let (a, b, c) = (&t.v[f[0]], &t.v[f[1]], &t.v[f[2]]);
        let (u, w) = (sub3(b, a), sub3(c, a));
        let n = cross3(u, w);
        let l = len3(n);
        let big = len3(u).max(len3(w)).max(len3(sub3(c, b)));
        let r = m.face_normal(FId(i));
        if l == 0.0 && matches!(d, Dist::Dyadic | Dist::Grid | Dist::Grid) && t.v.iter().all(|q| q.x * 8.0 == (q.x * 8.0).trunc() && q.y * 8.0 == (q.y * 8.0).trunc() && q.z * 8.0 == (q.z * 8.0).trunc()) {
            ensure!(r.is_err(), "normal-degenerate", "the degenerate face {:?} {:?} {:?} has normal {:?}", a, b, c, r);
            ctx.count("degenerate_normals", 1);
        }
        if l < 1e-6 * big * big || l == 0.0 { for k in 0..3 { tainted[f[k]] = true; } continue; }
        let n = [n[0] / l, n[1] / l, n[2] / l];
        match r {
            Ok(g) => ensure!(close(g.x(), n[0], 1e-7) && close(g.y(), n[1], 1e-7) && close(g.z(), n[2], 1e-7), "normal-face", "normal of {:?} {:?} {:?} is {:?}, expected {:?}", a, b, c, g, n),
            Err(e) => return fail("normal-error", format!("no normal for {:?} {:?} {:?}: {:?}", a, b, c, e)),
        }
        for k in 0..3 { for x in 0..3 { sums[f[k]][x] += n[x]; } }
        ctx.count("face_normals", 1);
    }
    ensure!(m.face_normal(FId(t.f.len())).is_err(), "normal-oob", "a face id out of range has a normal");
    let ns = normals_of_mesh(&m);
    ensure!(ns.len() == t.v.len(), "normals-count", "{} normals for {} vertices", ns.len(), t.v.len());
    for i in 0..t.v.len() {
        let l = len3(sums[i]);
        let g = [ns[i].x(), ns[i].y(), ns[i].z()];
        ensure!((len3(g) - 1.0).abs() < 1e-9, "normals-unit", "normal of vertex {} has length {}", i, len3(g));
        if tainted[i] || l < 1e-6 { continue; }
        ensure!((0..3).all(|k| close(g[k], sums[i][k] / l, 1e-7)), "normals-vertex", "normal of vertex {} is {:?}, expected the normalized sum {:?} of its faces' normals", i, g, sums[i]);
        ctx.count("vertex_normals", 1);
        ctx.nontrivial = true;
    }
    Ok(())
}
fn surfaces(ctx: &mut Ctx) -> R { match ctx.rng.below(3) { 0 => subdivision(ctx), 1 => unify(ctx), _ => normals(ctx) } }

// ---------------------------------------------------------------- probes
fn tri(v: &[(f64, f64, f64)], f: &[[usize; 3]]) -> Tri { Tri { v: v.iter().map(|q| p(q.0, q.1, q.2)).collect(), f: f.to_vec() } }
fn probe_twin() -> R {
    let t = tri(&[(0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (1., 1., 0.)], &[[0, 1, 2], [2, 1, 3]]);
    let he: HalfEdge<Vec<usize>> = HalfEdge::new(&build::<Vec<Point3D>, Vec<usize>>(&t)?);
    ensure!(he.twin(EId(1)) == Some(EId(3)) && he.twin(EId(3)) == Some(EId(1)) && he.twin(EId(0)).is_none(), "topo-twin", "twins of two neighbouring faces: {:?} {:?} {:?}", he.twin(EId(1)), he.twin(EId(3)), he.twin(EId(0)));
    Ok(())
}
fn probe_isolated() -> R {
    let t = tri(&[(0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (5., 5., 5.)], &[[0, 1, 2]]);
    let he: HalfEdge<Vec<usize>> = HalfEdge::new(&build::<Vec<Point3D>, Vec<usize>>(&t)?);
    let mut r = vec![];
    ensure!(he.edges_originating(VId(3), &mut r).is_ok() && r.is_empty(), "topo-isolated", "the unused last vertex is refused");
    Ok(())
}
fn probe_face_overflow() -> R {
    let t = tri(&[(0., 0., 0.), (1., 0., 0.), (0., 1., 0.)], &[[0, 1, 2]]);
    let m = build::<Vec<Point3D>, Vec<usize>>(&t)?;
    ensure!(m.face_vertex_ids(FId(usize::MAX / 3 + 1)).is_none() && m.face_vertex_ids(FId(usize::MAX)).is_none(), "edit-face-oob", "a huge face id is answered");
    Ok(())
}
fn probe_heal_rotated() -> R {
    let t = tri(&[(0., 0., 0.), (1., 0., 0.), (0., 1., 0.)], &[[0, 1, 2], [1, 2, 0], [0, 1, 2]]);
    let h = heal_mesh(&build::<Vec<Point3D>, Vec<usize>>(&t)?).map_err(|e| Fail { sig: "heal-error".into(), detail: format!("{:?}", e) })?;
    ensure!(h.num_faces() == 1, "heal-duplicate", "three copies of one face healed to {}", h.num_faces());
    Ok(())
}
fn probe_unify_degenerate() -> R {
    let t = tri(&[(0., 0., 0.), (1., 0., 0.), (2., 0., 0.), (0., 1., 0.)], &[[0, 1, 2], [0, 1, 3]]);
    let h = unify_faces(&build::<Vec<Point3D>, Vec<usize>>(&t)?).map_err(|e| Fail { sig: "unify-error".into(), detail: format!("{:?}", e) })?;
    ensure!(h.num_faces() == 2, "unify-count", "{} faces", h.num_faces());
    Ok(())
}
fn probe_unify_sharp() -> R {
    // a correctly oriented thin wedge stays as it is
    let t = tri(&[(0., 0., 0.), (1., 0., 0.), (0.5, 5., 0.1), (0.5, 5., -0.1)], &[[0, 1, 2], [1, 0, 3]]);
    let h = unify_faces(&build::<Vec<Point3D>, Vec<usize>>(&t)?).map_err(|e| Fail { sig: "unify-error".into(), detail: format!("{:?}", e) })?;
    let o = read(&h)?;
    ensure!((canon(o.f[0]) == canon(t.f[0])) == (canon(o.f[1]) == canon(t.f[1])), "unify-orientation", "one of two correctly oriented faces of a sharp edge was flipped");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C11", rule: "half edges and searchable meshes answer every topology query like a brute force scan of the faces", quick: 90000, thorough: 1_500_000, run: topology,
            probes: &[("twin-after-next", probe_twin), ("isolated-last-vertex", probe_isolated), ("added-vertex", p_added_vertex)],
            must_see: &["twins", "isolated_vertices", "vertices_added_later", "manifold_meshes", "other_meshes", "meshes_beyond_u8_edges", "meshes_beyond_u16_edges"], level: "exploration",
            assumptions: &["whether a face counts as its own vertex neighbour is left open", "uniqueness of twins is only required for consistently oriented manifold meshes"] },
        Prop { id: "C12", rule: "editing a mesh equals editing a vertex list and a face list", quick: 700000, thorough: 5_000_000, run: editing,
            probes: &[("huge-face-id", probe_face_overflow)],
            must_see: &["connections", "rejected_edits", "moves", "clones", "connections_beyond_256_vertices", "connections_beyond_65536_vertices"], level: "exploration",
            assumptions: &["moving a single precision cloud adds in single precision"] },
        Prop { id: "C13", rule: "index containers equal a vector of usize; the dynamic one uses the narrowest sufficient precision", quick: 900000, thorough: 15_000_000, run: indices,
            probes: &[], must_see: &["mixed_widths", "dynamic_histories", "conversions"], level: "exploration",
            assumptions: &["U32IndexVec is only given values up to 2^32-1, as documented"] },
        Prop { id: "C19", rule: "healing and clustering keep exactly the proper faces, once each", quick: 600000, thorough: 10_000_000, run: healing,
            probes: &[("rotated-duplicate", probe_heal_rotated)],
            must_see: &["healed", "degenerate_faces_in", "duplicate_faces_in", "clustered", "clustered_collapsing", "too_big"], level: "exploration",
            assumptions: &["vertices within rounding of a cell border may fall in either cell", "positive cluster sizes only"] },
        Prop { id: "C20", rule: "subdivision, orientation unification and normals match their geometric definition", quick: 500000, thorough: 9_000_000, run: surfaces,
            probes: &[("unify-degenerate-face", probe_unify_degenerate), ("unify-sharp-edge", probe_unify_sharp)],
            must_see: &["subdivided_faces", "subdivide_rejected", "unified_orientable", "unified_mixed", "unified_not_orientable", "face_normals", "vertex_normals", "degenerate_normals"], level: "exploration",
            assumptions: &["normals at vertices of (nearly) degenerate faces are a convention and not compared", "orientation is only required of orientable meshes with at most two faces per edge"] },
    ]
}
