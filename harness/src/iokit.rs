//! Readers and writers that misbehave on purpose, uniform access to all
//! loaders and iterators, and reference encoders for every file format.
use crate::core::*;
use crate::gen::*;
use rust_3d::io::*;
use rust_3d::*;
use std::fmt::Debug;
use std::io::{BufRead, Error, ErrorKind as EK, Read, Result as IoR, Seek, SeekFrom, Write};

// ---------------------------------------------------------------- reader
/// what a failing read or write reports (all but an interruption are final)
pub const FAULTS: [EK; 8] = [EK::Other, EK::UnexpectedEof, EK::WouldBlock, EK::BrokenPipe, EK::InvalidData, EK::TimedOut, EK::PermissionDenied, EK::ConnectionReset];
/// observations about one reader, shared with the driver
#[derive(Default, Clone, Debug)]
pub struct Seen {
    pub calls: u64,
    pub interrupts: u64,
    pub fired: bool,
    pub max_pos: usize,
    pub eof_hits: u64,
    pub chunks: u64,
}
pub struct Src<'a> {
    data: &'a [u8],
    pos: usize,
    avail: usize,
    max_chunk: usize,
    interrupts: bool,
    err_at: Option<usize>,
    rng: Rng,
    pub seen: &'a std::cell::RefCell<Seen>,
}
impl<'a> Src<'a> {
    pub fn new(data: &'a [u8], max_chunk: usize, interrupts: bool, err_at: Option<usize>, seed: u64, seen: &'a std::cell::RefCell<Seen>) -> Src<'a> {
        Src { data, pos: 0, avail: 0, max_chunk, interrupts, err_at, rng: Rng::new(seed), seen }
    }
    fn tick(&mut self) -> IoR<()> {
        let mut s = self.seen.borrow_mut();
        s.calls += 1;
        // every call either moves forward, reports the end or an error
        if s.calls > 200_000 + 64 * self.data.len() as u64 { panic!("reader polled {} times for {} bytes: no progress", s.calls, self.data.len()); }
        if self.interrupts && self.avail == 0 && self.rng.chance(1, 4) {
            s.interrupts += 1;
            return Err(Error::new(EK::Interrupted, "interrupted"));
        }
        if let Some(e) = self.err_at {
            if self.pos >= e {
                s.fired = true;
                return Err(Error::new(FAULTS[(e ^ self.data.len()) % FAULTS.len()], "injected"));
            }
        }
        Ok(())
    }
    fn window(&mut self) -> &'a [u8] {
        if self.avail == 0 {
            let left = self.data.len().saturating_sub(self.pos);
            let mut n = if self.max_chunk == 0 { left } else { left.min(1 + self.rng.below(self.max_chunk)) };
            if let Some(e) = self.err_at { n = n.min(e.saturating_sub(self.pos)); }
            self.avail = n;
            let mut s = self.seen.borrow_mut();
            s.chunks += 1;
            if left == 0 { s.eof_hits += 1; }
        }
        let p = self.pos.min(self.data.len());
        &self.data[p..p + self.avail]
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.avail, "consumed more than was available");
        self.pos += n;
        self.avail -= n;
        let mut s = self.seen.borrow_mut();
        s.max_pos = s.max_pos.max(self.pos);
    }
}
impl<'a> Read for Src<'a> {
    fn read(&mut self, buf: &mut [u8]) -> IoR<usize> {
        if buf.is_empty() { return Ok(0); }
        self.tick()?;
        let w = self.window();
        let n = w.len().min(buf.len());
        buf[..n].copy_from_slice(&w[..n]);
        self.advance(n);
        Ok(n)
    }
}
impl<'a> BufRead for Src<'a> {
    fn fill_buf(&mut self) -> IoR<&[u8]> {
        self.tick()?;
        Ok(self.window())
    }
    fn consume(&mut self, n: usize) { self.advance(n) }
}
impl<'a> Seek for Src<'a> {
    fn seek(&mut self, p: SeekFrom) -> IoR<u64> {
        let t = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.data.len() as i128 + x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
        };
        if t < 0 { return Err(Error::new(EK::InvalidInput, "seek")); }
        self.pos = (t as u64).min(1 << 40) as usize;
        self.avail = 0;
        Ok(self.pos as u64)
    }
}

// ---------------------------------------------------------------- writer
pub struct Snk {
    pub out: Vec<u8>,
    pub max_chunk: usize,
    pub interrupts: bool,
    /// error once this many bytes were accepted (kind selects how)
    pub err_at: Option<(usize, u8)>,
    pub fired: bool,
    pub n_short: u64,
    pub n_intr: u64,
    pub calls_after_fire: u64,
    pub rng: Rng,
}
impl Snk {
    pub fn new(max_chunk: usize, interrupts: bool, err_at: Option<(usize, u8)>, seed: u64) -> Snk {
        Snk { out: vec![], max_chunk, interrupts, err_at, fired: false, n_short: 0, n_intr: 0, calls_after_fire: 0, rng: Rng::new(seed) }
    }
}
impl Write for Snk {
    fn write(&mut self, b: &[u8]) -> IoR<usize> {
        if b.is_empty() { return Ok(0); }
        if self.fired { self.calls_after_fire += 1; }
        if self.interrupts && self.rng.chance(1, 4) {
            self.n_intr += 1;
            return Err(Error::new(EK::Interrupted, "interrupted"));
        }
        let mut n = if self.max_chunk == 0 { b.len() } else { b.len().min(1 + self.rng.below(self.max_chunk)) };
        if let Some((e, kind)) = self.err_at {
            if self.out.len() >= e {
                self.fired = true;
                return match kind { 0 => Ok(0), 1 => Err(Error::new(EK::BrokenPipe, "injected")), _ => Err(Error::new(FAULTS[(e ^ e >> 3) % FAULTS.len()], "disk full")) };
            }
            n = n.min(e - self.out.len());
        }
        if n < b.len() { self.n_short += 1; }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> IoR<()> { Ok(()) }
}

// ---------------------------------------------------------------- outcomes
pub type Msh = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
pub type Msh32 = Mesh3D<Point3D, Vec<Point3D>, U32IndexVec>;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct ErrInfo {
    pub what: String,
    /// variant of WithLineInfo: 0 none, 1 index, 2 line
    pub kind: u8,
    pub line: usize,
    pub text: String,
    pub shown: String,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Out {
    pub err: Option<ErrInfo>,
    pub pts: Vec<[u64; 3]>,
    pub faces: Vec<[usize; 3]>,
    pub norms: Vec<[u64; 3]>,
    /// load_ply_either: 1 mesh, 2 points
    pub which: u8,
}
impl Out {
    pub fn brief(&self) -> String {
        let p = |v: &Vec<[u64; 3]>| {
            let mut s = String::new();
            for x in v.iter().take(6) { s.push_str(&format!("({:?},{:?},{:?})", f64::from_bits(x[0]), f64::from_bits(x[1]), f64::from_bits(x[2]))); }
            s
        };
        format!("err={:?} {} pts {} {} faces {:?} {} normals", self.err.as_ref().map(|e| &e.shown), self.pts.len(), p(&self.pts), self.faces.len(), self.faces.iter().take(6).collect::<Vec<_>>(), self.norms.len())
    }
}
fn wl<E: Debug + std::fmt::Display>(e: WithLineInfo<E>) -> ErrInfo {
    let shown = format!("{}", e);
    match e {
        WithLineInfo::None(x) => ErrInfo { what: format!("{:?}", x), kind: 0, line: 0, text: String::new(), shown },
        WithLineInfo::Index(i, x) => ErrInfo { what: format!("{:?}", x), kind: 1, line: i, text: String::new(), shown },
        WithLineInfo::Line(i, l, x) => ErrInfo { what: format!("{:?}", x), kind: 2, line: i, text: l, shown },
    }
}
fn plain<E: Debug>(e: E) -> ErrInfo {
    ErrInfo { what: format!("{:?}", e), shown: format!("{:?}", e), ..Default::default() }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fmt { Xy, Xyz, Pts, Ptx, Psl, OffM, OffP, ObjM, ObjP, Gcode, StlD(u8), StlU(u8), StlT(u8), PlyM, PlyP, PlyE, Las }
/// 0 ascii, 1 binary, 2 auto
fn sf(x: u8) -> StlFormat { match x { 0 => StlFormat::Ascii, 1 => StlFormat::Binary, _ => StlFormat::Auto } }
pub const ALL_FMTS: [Fmt; 23] = [
    Fmt::Xy, Fmt::Xyz, Fmt::Pts, Fmt::Ptx, Fmt::Psl, Fmt::OffM, Fmt::OffP, Fmt::ObjM, Fmt::ObjP, Fmt::Gcode,
    Fmt::StlD(0), Fmt::StlD(1), Fmt::StlD(2), Fmt::StlU(0), Fmt::StlU(1), Fmt::StlU(2), Fmt::StlT(0), Fmt::StlT(1), Fmt::StlT(2),
    Fmt::PlyM, Fmt::PlyP, Fmt::PlyE, Fmt::Las,
];

fn mesh_out(o: &mut Out, m: &Msh) {
    for i in 0..m.num_vertices() { o.pts.push(k3(&m.vertex(VId(i)).unwrap())); }
    for i in 0..m.num_faces() { let f = m.face_vertex_ids(FId(i)).unwrap(); o.faces.push([f.a.0, f.b.0, f.c.0]); }
}
fn pts_out(v: &PointCloud3D<Point3D>) -> Vec<[u64; 3]> { v.data.iter().map(|p| k3(p)).collect() }

pub fn load<R: BufRead + Seek>(f: Fmt, read: R) -> Out {
    let mut o = Out::default();
    match f {
        Fmt::Xy => {
            let mut pc = PointCloud2D::<Point2D>::new();
            o.err = load_xy(read, &mut pc).err().map(wl);
            o.pts = pc.data.iter().map(|p| [p.x.to_bits(), p.y.to_bits(), 0]).collect();
        }
        Fmt::Xyz | Fmt::Pts | Fmt::Ptx | Fmt::Psl | Fmt::OffP | Fmt::ObjP | Fmt::Gcode | Fmt::PlyP | Fmt::Las => {
            let mut pc = PointCloud3D::<Point3D>::new();
            o.err = match f {
                Fmt::Xyz => load_xyz(read, &mut pc).err().map(wl),
                Fmt::Pts => load_pts(read, &mut pc).err().map(wl),
                Fmt::Ptx => load_ptx(read, &mut pc).err().map(wl),
                Fmt::Psl => load_psl(read, &mut pc).err().map(plain),
                Fmt::OffP => load_off_points(read, &mut pc).err().map(wl),
                Fmt::ObjP => load_obj_points(read, &mut pc).err().map(wl),
                Fmt::Gcode => load_gcode_points(read, &mut pc).err().map(wl),
                Fmt::PlyP => load_ply_points(read, &mut pc).err().map(wl),
                _ => load_las(read, &mut pc).err().map(plain),
            };
            o.pts = pts_out(&pc);
        }
        Fmt::OffM | Fmt::ObjM | Fmt::PlyM => {
            let mut m = Msh::default();
            o.err = match f {
                Fmt::OffM => load_off_mesh(read, &mut m).err().map(wl),
                Fmt::ObjM => load_obj_mesh(read, &mut m).err().map(wl),
                _ => load_ply_mesh(read, &mut m).err().map(wl),
            };
            mesh_out(&mut o, &m);
        }
        Fmt::PlyE => {
            let mut m = Msh::default();
            let mut pc = PointCloud3D::<Point3D>::new();
            match load_ply_either(read, &mut m, &mut pc) {
                Err(e) => o.err = Some(wl(e)),
                Ok(MeshOrPoints::Mesh) => o.which = 1,
                Ok(MeshOrPoints::Points) => o.which = 2,
            }
            mesh_out(&mut o, &m);
            o.pts.extend(pts_out(&pc));
        }
        Fmt::StlD(x) | Fmt::StlU(x) => {
            let mut m = Msh::default();
            let mut ns = PointCloud3D::<Point3D>::new();
            o.err = match f {
                Fmt::StlD(_) => load_stl_mesh_duped(read, sf(x), &mut m, &mut ns).err().map(wl),
                _ => load_stl_mesh_unique(read, sf(x), &mut m, &mut ns).err().map(wl),
            };
            mesh_out(&mut o, &m);
            o.norms = pts_out(&ns);
        }
        Fmt::StlT(x) => {
            let mut pc = PointCloud3D::<Point3D>::new();
            let mut ns = PointCloud3D::<Point3D>::new();
            o.err = load_stl_triplets(read, sf(x), &mut pc, &mut ns).err().map(wl);
            o.pts = pts_out(&pc);
            o.norms = pts_out(&ns);
        }
    }
    o
}

// ---------------------------------------------------------------- iterators
#[derive(Clone, Debug, PartialEq)]
pub enum Ev { P([u64; 3]), F([usize; 3]), T([[u64; 3]; 4]), Res(usize, usize), E(ErrInfo) }
pub struct Walk {
    pub evs: Vec<Ev>,
    /// items delivered after the first None
    pub after_end: usize,
    /// items delivered after the first error
    pub after_err: usize,
}
fn walk<I: Iterator, G: Fn(I::Item) -> Ev>(mut it: I, g: G, limit: usize) -> Walk {
    let mut w = Walk { evs: vec![], after_end: 0, after_err: 0 };
    let mut erred = false;
    loop {
        if w.evs.len() > limit { panic!("iterator delivered more than {} items", limit); }
        match it.next() {
            None => break,
            Some(x) => {
                if erred { w.after_err += 1; }
                let e = g(x);
                if let Ev::E(_) = e { erred = true; }
                w.evs.push(e);
            }
        }
    }
    for _ in 0..3 { if it.next().is_some() { w.after_end += 1; } }
    w
}
fn e1<E: Debug + std::fmt::Display>(e: WithLineInfo<E>) -> Ev { Ev::E(wl(e)) }
fn dr(x: DataReserve<Point3D>) -> Ev { match x { DataReserve::Data(p) => Ev::P(k3(&p)), DataReserve::Reserve(n) => Ev::Res(n, 0) } }
fn fdr(x: FaceDataReserve<Point3D>) -> Ev {
    match x { FaceDataReserve::Face(f) => Ev::F(f), FaceDataReserve::Data(p) => Ev::P(k3(&p)), FaceDataReserve::ReserveDataFaces(a, b) => Ev::Res(a, b) }
}
pub fn iterate<R: BufRead + Seek>(f: Fmt, read: R, limit: usize) -> Option<Walk> {
    let one = |e: Ev| Walk { evs: vec![e], after_end: 0, after_err: 0 };
    Some(match f {
        Fmt::Xy => walk(XyIterator::<Point2D, _>::new(read), |x| match x { Ok(p) => Ev::P([p.x.to_bits(), p.y.to_bits(), 0]), Err(e) => e1(e) }, limit),
        Fmt::Xyz => walk(XyzIterator::<Point3D, _>::new(read), |x| match x { Ok(p) => Ev::P(k3(&p)), Err(e) => e1(e) }, limit),
        Fmt::Pts => walk(PtsIterator::<Point3D, _>::new(read), |x| match x { Ok(p) => dr(p), Err(e) => e1(e) }, limit),
        Fmt::Ptx => walk(PtxIterator::<Point3D, _>::new(read), |x| match x { Ok(p) => dr(p), Err(e) => e1(e) }, limit),
        Fmt::Psl => walk(PslIterator::<Point3D, _>::new(read), |x| match x { Ok(p) => Ev::P(k3(&p)), Err(e) => Ev::E(plain(e)) }, limit),
        Fmt::OffM => walk(OffMeshIterator::<Point3D, _>::new(read), |x| match x { Ok(p) => fdr(p), Err(e) => e1(e) }, limit),
        Fmt::OffP => walk(OffPointsIterator::<Point3D, _>::new(read), |x| match x { Ok(p) => dr(p), Err(e) => e1(e) }, limit),
        Fmt::ObjM => walk(ObjMeshIterator::<Point3D, _>::new(read), |x| match x { Ok(FaceData::Data(p)) => Ev::P(k3(&p)), Ok(FaceData::Face(f)) => Ev::F(f), Err(e) => e1(e) }, limit),
        Fmt::ObjP => walk(ObjPointsIterator::<Point3D, _>::new(read), |x| match x { Ok(p) => Ev::P(k3(&p)), Err(e) => e1(e) }, limit),
        Fmt::Gcode => walk(GcodeIterator::<Point3D, _>::new(read), |x| match x { Ok(p) => Ev::P(k3(&p)), Err(e) => e1(e) }, limit),
        Fmt::StlT(x) => match StlIterator::<Point3D, _>::new(read, sf(x)) {
            Err(e) => one(e1(e)),
            Ok(it) => walk(it, |x| match x {
                Ok(DataReserve::Reserve(n)) => Ev::Res(n, 0),
                Ok(DataReserve::Data(t)) => Ev::T([k3(&t.a), k3(&t.b), k3(&t.c), k3(&t.n)]),
                Err(e) => e1(e),
            }, limit),
        },
        Fmt::PlyM => match PlyMeshIterator::<Point3D, _>::new(read) {
            Err(e) => one(e1(e)),
            Ok(it) => walk(it, |x| match x { Ok(p) => fdr(p), Err(e) => e1(e) }, limit),
        },
        Fmt::PlyP => match PlyPointsIterator::<Point3D, _>::new(read) {
            Err(e) => one(e1(e)),
            Ok(it) => walk(it, |x| match x { Ok(p) => dr(p), Err(e) => e1(e) }, limit),
        },
        Fmt::Las => match LasIterator::<Point3D, _>::new(read) {
            Err(e) => one(Ev::E(plain(e))),
            Ok(it) => walk(it, |x| match x { Ok(p) => dr(p), Err(e) => Ev::E(plain(e)) }, limit),
        },
        Fmt::PlyE | Fmt::StlD(_) | Fmt::StlU(_) => return None,
    })
}

// ---------------------------------------------------------------- documents
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fam { Xy, Xyz, Pts, Ptx, Off, Obj, Gcode, StlA, PlyA, Psl, StlB, PlyLe, PlyBe, Las }
pub const TEXT_FAMS: [Fam; 9] = [Fam::Xy, Fam::Xyz, Fam::Pts, Fam::Ptx, Fam::Off, Fam::Obj, Fam::Gcode, Fam::StlA, Fam::PlyA];
pub const BIN_FAMS: [Fam; 5] = [Fam::Psl, Fam::StlB, Fam::PlyLe, Fam::PlyBe, Fam::Las];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tk { Coord, Index, Count, Kw, Matrix, FaceN }
#[derive(Clone, Debug)]
pub struct Tok { pub a: usize, pub b: usize, pub line: usize, pub kind: Tk, /** number of records complete before this token's line */ pub np: usize, pub nf: usize }

#[derive(Clone, Debug)]
pub struct Doc {
    pub fam: Fam,
    pub bytes: Vec<u8>,
    pub toks: Vec<Tok>,
    pub pts: Vec<[u64; 3]>,
    pub faces: Vec<[usize; 3]>,
    pub tris: Vec<[[u64; 3]; 4]>,
    /// declared amounts, in the order an iterator announces them
    pub res: Vec<(usize, usize)>,
    /// (offset right behind the record, number of points / tris, number of faces complete)
    pub ends: Vec<(usize, usize, usize)>,
    /// amounts are declared in the file
    pub counted: bool,
    pub has_faces: bool,
    pub lines: usize,
    pub tag: String,
    /// per declared block of points: number of complete points once the block is done
    /// .psl: offsets of its counters
    pub blocks: Vec<usize>,
    /// (offset, value) of binary counters
    pub header_end: usize,
}

struct B { buf: Vec<u8>, toks: Vec<Tok>, line: usize, crlf: bool, trail: bool, np: usize, nf: usize, ends: Vec<(usize, usize, usize)> }
impl B {
    fn new(r: &mut Rng) -> B { B { buf: vec![], toks: vec![], line: 1, crlf: r.chance(1, 4), trail: r.chance(1, 4), np: 0, nf: 0, ends: vec![] } }
    fn raw(&mut self, s: &str) { self.buf.extend_from_slice(s.as_bytes()) }
    fn tok(&mut self, s: &str, kind: Tk) {
        let a = self.buf.len();
        self.raw(s);
        self.toks.push(Tok { a, b: self.buf.len(), line: self.line, kind, np: self.np, nf: self.nf });
    }
    fn sep(&mut self, r: &mut Rng, tabs: bool) {
        if r.chance(1, 400) { let s = " ".repeat(1 + r.below(300)); return self.raw(&s); }
        let s = match r.below(8) { 0 => "  ", 1 if tabs => "\t", 2 if tabs => " \t ", 3 => "    ", _ => " " };
        self.raw(s)
    }
    /// indentation
    fn lead(&mut self, r: &mut Rng) { if r.chance(1, 200) { let s = " ".repeat(1 + r.below(300)); return self.raw(&s); } if r.chance(1, 12) { self.raw(*r.pick(&[" ", "\t", "   ", " \t"])) } }
    fn eol(&mut self, r: &mut Rng) {
        if self.trail && r.chance(1, 40) { let s = " ".repeat(1 + r.below(300)); self.raw(&s); }
        else if self.trail && r.chance(1, 3) { self.raw(if r.bool() { "  " } else { "\t" }); }
        if self.crlf { self.raw("\r\n") } else { self.raw("\n") }
        self.line += 1;
    }
    fn rec(&mut self, p: usize, f: usize) { self.np += p; self.nf += f; let e = self.buf.len(); self.ends.push((e, self.np, self.nf)); }
    fn l(&mut self, r: &mut Rng, s: &str) { self.raw(s); self.eol(r) }
}

/// text without meaning, as in comments and names
pub fn free(r: &mut Rng) -> String {
    let words = ["end_header", "ply", "format ascii 1.0", "element vertex 3", "element face 7", "property float x", "property list uchar int vertex_indices", "comment", "obj_info", "endsolid", "solid", "facet normal 0 0 1", "outer loop", "vertex 1 2 3",
        "endloop", "endfacet", "v 1 2 3", "f 1 2 3", "OFF", "3 0 1 2", "G1 X1 Y2 Z3", "G90", "G91", "G92 X0", "X1", "Y2", "Z-3", "#", ";", "//", "1/2/3", "0", "-1", "1e5", "nan", "inf", "\u{e4}\u{df}", "\u{20ac}", "a", "name", "\"", "%", "(", ")", "\\", "."];
    let n = match r.below(12) { 0 => 0, 1 => 1 + r.below(400), _ => 1 + r.below(5) };
    let mut s = String::new();
    for i in 0..n { if i > 0 { s.push_str(if r.chance(1, 8) { "\t" } else { " " }); } s.push_str(*r.pick(&words)); }
    s
}

/// a number in one of its textual forms together with its value
pub fn num(r: &mut Rng) -> (String, f64) {
    let v = match r.below(10) {
        0 => any_finite(r),
        1 => r.range(-9, 9) as f64,
        2 => r.range(-100000, 100000) as f64 / 1000.0,
        3 => r.f(-1.0, 1.0) * 10f64.powi(r.range(-20, 20) as i32),
        4 => r.f(-1.0, 1.0),
        _ => { let i = r.below(DISTS.len()); coord(r, DISTS[i]) }
    };
    let s = match r.below(9) {
        0 => format!("{:e}", v),
        1 => format!("{:E}", v),
        2 => format!("{:?}", v),
        3 => format!("{:.3}", v),
        4 if v >= 0.0 && !v.is_sign_negative() => format!("+{}", v),
        5 if v.fract() == 0.0 && v.abs() < 1e9 => format!("{}.", v),
        6 if v.abs() < 1e6 => format!("{:.17}", v),
        7 if v >= 0.0 && !v.is_sign_negative() => format!("00{}", v),
        _ => format!("{}", v),
    };
    let v2: f64 = s.parse().expect("HARNESS number");
    (s, v2)
}
fn num3(r: &mut Rng) -> ([String; 3], [f64; 3]) {
    let (a, x) = num(r);
    let (b, y) = num(r);
    let (c, z) = num(r);
    ([a, b, c], [x, y, z])
}
fn kb(v: &[f64; 3]) -> [u64; 3] { [v[0].to_bits(), v[1].to_bits(), v[2].to_bits()] }
fn f32v(r: &mut Rng) -> f32 {
    match r.below(6) {
        0 => loop { let x = f32::from_bits(r.u64() as u32); if x.is_finite() { break x } },
        1 => r.range(-5, 5) as f32,
        2 => 0.0,
        _ => r.f(-100.0, 100.0) as f32,
    }
}
fn junk(r: &mut Rng, n: usize) -> Vec<u8> { (0..n).map(|_| r.u64() as u8).collect() }

/// face with distinct ids below n
fn face(r: &mut Rng, n: usize) -> [usize; 3] {
    loop {
        let f = [r.below(n), r.below(n), r.below(n)];
        if f[0] != f[1] && f[0] != f[2] && f[1] != f[2] { return f; }
    }
}

pub fn doc(ctx: &mut Ctx, fam: Fam) -> Doc {
    let np = { let m = if ctx.rng.chance(1, 12) { 400 } else { 24 }; size(ctx, m) };
    let nf = if np >= 3 { if ctx.rng.chance(1, 16) { size(ctx, 400) } else { ctx.rng.below(12) } } else { 0 };
    doc_n(ctx, fam, np, nf, false)
}
/// a document beyond every small integer type a counter or an id could be squeezed into
pub fn doc_huge(ctx: &mut Ctx, fam: Fam) -> Doc {
    let np = match ctx.rng.below(7) {
        0 => 254 + ctx.rng.below(5),
        1 => 510 + ctx.rng.below(5),
        2 => 32765 + ctx.rng.below(6),
        3 => 65533 + ctx.rng.below(6),
        4 => 65536 + ctx.rng.below(6000),
        5 => 300 + ctx.rng.below(3000),
        6 if ctx.rng.chance(1, 4) => 100_000 + ctx.rng.below(60_000),
        _ => 33000 + ctx.rng.below(32000),
    };
    let nf = match ctx.rng.below(4) { 0 => 1000, 1 => ctx.rng.below(20), _ => np };
    doc_n(ctx, fam, np, nf, true)
}
fn doc_n(ctx: &mut Ctx, fam: Fam, np: usize, nf: usize, big: bool) -> Doc {
    let mut r = Rng::new(ctx.rng.u64());
    let r = &mut r;
    let mut b = B::new(r);
    let mut d = Doc { fam, bytes: vec![], toks: vec![], pts: vec![], faces: vec![], tris: vec![], res: vec![], ends: vec![], counted: false, has_faces: false, lines: 0, tag: String::new(), blocks: vec![], header_end: 0 };
    match fam {
        Fam::Xy | Fam::Xyz => {
            let del = *r.pick(&[" ", " ", ";", ",", "\t"]);
            let dims = if fam == Fam::Xy { 2 } else { 3 };
            let extra = r.chance(1, 5);
            // one blank within a label can't be what separates three numbers
            let label = if dims == 3 && del != " " && r.chance(1, 4) { "255 x" } else { "255" };
            for _ in 0..np {
                let (s, mut v) = num3(r);
                if r.chance(1, 10) { b.raw(del); }
                for i in 0..dims {
                    if i > 0 { b.raw(del); if r.chance(1, 8) { b.raw(del); } }
                    b.tok(&s[i], Tk::Coord);
                }
                if dims == 2 { v[2] = 0.0; }
                d.pts.push(kb(&v));
                b.rec(1, 0);
                if extra { b.raw(del); b.raw(label); }
                b.eol(r);
            }
            d.tag = format!("delim {:?}", del);
        }
        Fam::Pts => {
            d.counted = true;
            let blocks = 1 + r.below(3);
            for _ in 0..blocks {
                let n = if r.chance(1, 6) { 0 } else if big && !d.pts.is_empty() { r.below(20) } else { np };
                if r.chance(1, 5) { b.eol(r); }
                b.tok(&n.to_string(), Tk::Count);
                d.res.push((n, 0));
                b.eol(r);
                for _ in 0..n {
                    if r.chance(1, 12) { b.eol(r); }
                    let (s, v) = num3(r);
                    b.lead(r);
                    for i in 0..3 { if i > 0 { b.sep(r, true); } b.tok(&s[i], Tk::Coord); }
                    d.pts.push(kb(&v));
                    b.rec(1, 0);
                    if r.bool() { b.raw(" -1234 0 0 255"); }
                    b.eol(r);
                }
                d.blocks.push(d.pts.len());
            }
        }
        Fam::Ptx => {
            d.counted = true;
            let blocks = 1 + r.below(3);
            let pick = r.below(blocks);
            for k in 0..blocks {
                let (mut cols, mut rows) = (r.below(5), r.below(5));
                if big && k == pick {
                    if r.bool() { cols = 1 + r.below(300); rows = 1 + np / cols; } else { rows = 1 + r.below(3); cols = 1 + np / rows; }
                } else if r.chance(1, 20) {
                    cols = r.below(40); rows = r.below(40);
                }
                b.tok(&cols.to_string(), Tk::Count); b.eol(r);
                b.tok(&rows.to_string(), Tk::Count); b.eol(r);
                if r.bool() { for l in ["0 0 0", "1 0 0", "0 1 0", "0 0 1"] { b.l(r, l); } }
                else { for _ in 0..4 { let l = format!("{} {:?} {}", r.f(-9.0, 9.0), r.f(-1.0, 1.0), r.range(-5, 5)); b.l(r, &l); } }
                let ident = r.chance(1, 3);
                // the unit matrix except for one or two values
                let near = !ident && r.chance(1, 4);
                let mut m = [[0f64; 4]; 4];
                for i in 0..4 { m[i][i] = 1.0 }
                if near { for _ in 0..1 + r.below(2) { let (i, j) = (r.below(4), r.below(3)); m[i][j] = r.range(-16, 16) as f64 / 4.0; } }
                else { for i in 0..4 { for j in 0..4 { m[i][j] = if ident { if i == j { 1.0 } else { 0.0 } } else if j == 3 { if i == 3 { 1.0 } else { 0.0 } } else { r.range(-16, 16) as f64 / 4.0 } } } }
                for i in 0..4 {
                    for j in 0..4 { if j > 0 { b.sep(r, true); } b.tok(&format!("{}", m[i][j]), Tk::Matrix); }
                    b.eol(r);
                }
                d.res.push((rows * cols, 0));
                for _ in 0..rows * cols {
                    let (s, v) = if ident { num3(r) } else {
                        let v = [r.range(-4000, 4000) as f64 / 8.0, r.range(-4000, 4000) as f64 / 8.0, r.range(-4000, 4000) as f64 / 8.0];
                        ([v[0].to_string(), v[1].to_string(), v[2].to_string()], v)
                    };
                    b.lead(r);
                    for i in 0..3 { if i > 0 { b.sep(r, true); } b.tok(&s[i], Tk::Coord); }
                    // row vectors: axes x, y, z and the translation, one per line
                    let t = |i: usize| m[0][i] * v[0] + m[1][i] * v[1] + m[2][i] * v[2] + m[3][i];
                    // + 0.0: exact arithmetic except for the sign of zero
                    let w = if ident { v } else { [t(0) + 0.0, t(1) + 0.0, t(2) + 0.0] };
                    d.pts.push(kb(&w));
                    b.rec(1, 0);
                    if r.bool() { b.raw(" 0.5"); }
                    b.eol(r);
                }
                d.blocks.push(d.pts.len());
            }
        }
        Fam::Off => {
            d.counted = true;
            d.has_faces = true;
            let same_line = r.chance(1, 6);
            let cm = |b: &mut B, r: &mut Rng| if r.chance(1, 8) { match r.below(3) { 0 => b.l(r, "# 1 2 3 comment"), 1 => { let s = format!("#{}", free(r)); b.l(r, &s) } _ => b.eol(r) } };
            if r.chance(1, 4) { cm(&mut b, r); cm(&mut b, r); }
            if same_line { b.raw("OFF"); b.sep(r, true) } else if r.chance(4, 5) { let k = *r.pick(&["OFF", "OFF", "OFF", "OFF # comment"]); b.l(r, k); }
            if !same_line { cm(&mut b, r); b.lead(r); }
            b.tok(&np.to_string(), Tk::Count); b.sep(r, true); b.tok(&nf.to_string(), Tk::Count);
            if r.bool() { b.raw(" 0"); }
            b.eol(r);
            d.res.push((np, nf));
            for _ in 0..np {
                cm(&mut b, r);
                b.lead(r);
                let (s, v) = num3(r);
                for i in 0..3 { if i > 0 { b.sep(r, true); } b.tok(&s[i], Tk::Coord); }
                d.pts.push(kb(&v));
                b.rec(1, 0);
                b.eol(r);
            }
            for _ in 0..nf {
                cm(&mut b, r);
                let f = face(r, np);
                b.lead(r);
                b.tok("3", Tk::FaceN);
                for i in 0..3 { b.sep(r, true); b.tok(&f[i].to_string(), Tk::Index); }
                d.faces.push(f);
                b.rec(0, 1);
                if r.chance(1, 4) { b.raw(" 255 0 0"); }
                b.eol(r);
            }
        }
        Fam::Obj => {
            d.has_faces = true;
            let mut noise = |b: &mut B, r: &mut Rng| if r.chance(1, 5) {
                if r.chance(1, 3) { let s = format!("{}{}", *r.pick(&["#", "# ", "o ", "g ", "usemtl ", "mtllib "]), free(r)); return b.l(r, &s); }
                let s = *r.pick(&["# v 1 2 3", "vn 0 0 1", "vt 0.5 0.5", "o thing", "s off", "usemtl m", "", "g f 1 2", "mtllib x.mtl", "vp 1", "l 1 2"]);
                b.l(r, s)
            };
            let mut left_f = nf;
            for i in 0..np {
                noise(&mut b, r);
                let (s, v) = num3(r);
                b.lead(r);
                b.raw("v");
                b.sep(r, true);
                for i in 0..3 { if i > 0 { b.sep(r, true); } b.tok(&s[i], Tk::Coord); }
                d.pts.push(kb(&v));
                b.rec(1, 0);
                if r.chance(1, 5) { b.raw(" 1.0"); }
                b.eol(r);
                while i >= 2 && left_f > 0 && (r.chance(1, if big { 2 } else { 6 }) || i + 1 == np) {
                    noise(&mut b, r);
                    let f = face(r, i + 1);
                    b.lead(r);
                    b.raw("f");
                    b.sep(r, true);
                    for k in 0..3 {
                        if k > 0 { b.sep(r, true); }
                        b.tok(&(f[k] + 1).to_string(), Tk::Index);
                        match r.below(6) { 0 => b.raw("/7"), 1 => b.raw("//3"), 2 => b.raw("/1/2"), _ => {} }
                    }
                    d.faces.push(f);
                    b.rec(0, 1);
                    if r.chance(1, 12) { b.raw(*r.pick(&[" # 7", " #7 8", "\t# f 1 2 3"])) }
                    b.eol(r);
                    left_f -= 1;
                }
            }
        }
        Fam::Gcode => {
            let mut p = [0f64; 3];
            let mut rel = false;
            for _ in 0..np {
                match r.below(14) {
                    0 if r.bool() => { let s = format!(";{}", free(r)); b.l(r, &s) }
                    0 => { let s = *r.pick(&["; comment X1 Y2", "M104 S200", "G28", "G28 X Y", "G0 X5 Y5", "", "T0", "G21", "M107 X3", "G1", "g1 X9", "G4 P1 X2", "G10 X1"]); b.l(r, s) }
                    1 => { rel = false; let s = *r.pick(&["G90", "G90 ; absolute", "G90;absolute", " G90", "\tG90\t;x"]); b.l(r, s) }
                    2 => { rel = true; let s = *r.pick(&["G91", "G91 ; relative", "G91;relative", "  G91", "G91\t; G90"]); b.l(r, s) }
                    k => {
                        let g92 = k == 3;
                        b.lead(r);
                        b.raw(if g92 { "G92" } else { *r.pick(&["G1", "G1", "G2", "G3"]) });
                        b.sep(r, true);
                        let mut ord = [0usize, 1, 2];
                        r.shuffle(&mut ord);
                        let mut any = false;
                        for c in ord {
                            if r.chance(1, 3) { continue; }
                            any = true;
                            let (s, v) = loop { let x = num(r); if x.1.abs() < 1e100 { break x; } };
                            b.sep(r, true);
                            b.raw(["X", "Y", "Z"][c]);
                            b.tok(&s, Tk::Coord);
                            if rel && !g92 { p[c] += v } else { p[c] = v }
                            if r.chance(1, 6) { b.raw(" E0.3"); }
                        }
                        if r.chance(1, 4) { b.raw(" F1200"); }
                        if r.chance(1, 6) { b.raw(*r.pick(&[" ; X7 moved", "; X7 moved", ";X7", ";", " ;X7 Y8 Z9", "\t;Y1", " X;Y", ";X1;Y2 Z3"])); if r.chance(1, 4) { let s = format!(" ;{}", free(r)); b.raw(&s); } }
                        if any { d.pts.push(kb(&p)); b.rec(1, 0); }
                        b.eol(r);
                    }
                }
            }
        }
        Fam::StlA => {
            { let s__ = (["solid", "solid name with words", "solid  facet"].get(r.below(3)).unwrap()).to_string(); if r.bool() { let s = format!("solid {}", free(r)); b.l(r, &s) } else { b.l(r, &s__) } };
            let n = np;
            let ind = *r.pick(&["", "  ", "\t", "    "]);
            for _ in 0..n {
                let (sn, vn) = num3(r);
                let has_n = !r.chance(1, 8);
                b.raw(ind);
                b.tok("facet", Tk::Kw);
                b.raw(" normal");
                if has_n { for s in &sn { b.sep(r, true); b.raw(s); } }
                b.eol(r);
                b.raw(ind); b.tok("outer loop", Tk::Kw); b.eol(r);
                let mut t = [[0u64; 3]; 4];
                for k in 0..3 {
                    let (s, v) = if k > 0 && r.chance(1, 12) { let x = t[0]; let f = [f64::from_bits(x[0]), f64::from_bits(x[1]), f64::from_bits(x[2])]; ([format!("{:e}", f[0]), format!("{:e}", f[1]), format!("{:e}", f[2])], f) } else { num3(r) };
                    b.raw(ind); b.raw(ind); b.tok("vertex", Tk::Kw);
                    for i in 0..3 { b.sep(r, true); b.tok(&s[i], Tk::Coord); }
                    t[k] = kb(&v);
                    b.eol(r);
                }
                b.raw(ind); b.tok("endloop", Tk::Kw); b.eol(r);
                b.raw(ind); b.tok("endfacet", Tk::Kw);
                t[3] = if has_n { kb(&vn) } else { kb(&[0.0, 0.0, 1.0]) };
                d.tris.push(t);
                b.rec(1, 0);
                b.eol(r);
            }
            if !r.chance(1, 6) { b.raw(ind); { let s = if r.bool() { format!("endsolid {}", free(r)) } else { "endsolid name".to_string() }; b.l(r, &s); } if r.chance(1, 4) { b.l(r, "trailing"); } }
        }
        Fam::PlyA | Fam::PlyLe | Fam::PlyBe => {
            d.counted = true;
            let text = fam == Fam::PlyA;
            let be = fam == Fam::PlyBe;
            if !text { b.trail = false; b.crlf = false; }
            d.has_faces = r.chance(3, 4);
            let cm = |b: &mut B, r: &mut Rng| if r.chance(1, 6) { { let s__ = match r.below(4) { 0 => "comment element vertex 3".to_string(), 1 => "obj_info x y z".to_string(), 2 => format!("comment {}", free(r)), _ => format!("obj_info {}", free(r)) }; b.l(r, &s__) } };
            b.tok("ply", Tk::Kw); b.eol(r);
            cm(&mut b, r);
            b.tok(match fam { Fam::PlyA => "format ascii 1.0", Fam::PlyLe => "format binary_little_endian 1.0", _ => "format binary_big_endian 1.0" }, Tk::Kw);
            b.eol(r);
            cm(&mut b, r);
            let vtypes: [(&str, usize); 8] = [("char", 1), ("uchar", 1), ("short", 2), ("ushort", 2), ("int", 4), ("uint", 4), ("float", 4), ("double", 8)];
            let vt2: [(&str, usize); 8] = [("int8", 1), ("uint8", 1), ("int16", 2), ("uint16", 2), ("int32", 4), ("uint32", 4), ("float32", 4), ("float64", 8)];
            let pick_t = |r: &mut Rng| { let i = r.below(8); if r.bool() { vtypes[i] } else { vt2[i] } };
            b.raw("element vertex "); b.tok(&np.to_string(), Tk::Count); b.eol(r);
            // layout: sequence of Some(axis, is_double) / None(size)
            let mut ord = [0usize, 1, 2];
            if r.bool() { r.shuffle(&mut ord); }
            enum Pr { Ax(usize, bool), Oth(usize) }
            let mut lay = vec![];
            let many = r.bool();
            let same = r.bool();
            let dbl = r.bool();
            let mut names = 0;
            for k in 0..4 {
                if many { for _ in 0..if r.chance(1, 40) { r.below(140) } else if r.chance(1, 12) { 8 + r.below(30) } else { r.below(3) } {
                    let (t, sz) = pick_t(r);
                    cm(&mut b, r);
                    names += 1;
                    let nm = *r.pick(&["nx", "red", "quality", "s", "xx", "w"]);
                    b.l(r, &format!("property {} {}{}", t, nm, names));
                    lay.push(Pr::Oth(sz));
                } }
                if k < 3 {
                    let dd = if same { dbl } else { r.bool() };
                    { let s__ = (&format!("property {} {}", if dd { *r.pick(&["double", "float64"]) } else { *r.pick(&["float", "float32"]) }, ["x", "y", "z"][ord[k]])).to_string(); b.l(r, &s__) };
                    lay.push(Pr::Ax(ord[k], dd));
                }
            }
            let mut fb: Vec<usize> = vec![];
            let mut fa: Vec<usize> = vec![];
            // a list behind the indices
            let mut more = "";
            let (mut ct, mut it) = (("uchar", 1), ("uint", 4));
            if d.has_faces {
                cm(&mut b, r);
                b.raw("element face "); b.tok(&nf.to_string(), Tk::Count); b.eol(r);
                if r.chance(1, 3) { for _ in 0..if r.chance(1, 40) { r.below(140) } else if r.chance(1, 12) { 8 + r.below(30) } else { r.below(3) } { let (t, sz) = pick_t(r); b.l(r, &format!("property {} flags", t)); fb.push(sz); } }
                let i = r.below(6); ct = if r.bool() { vtypes[i] } else { vt2[i] };
                let i = r.below(6); it = if r.bool() { vtypes[i] } else { vt2[i] };
                { let s__ = (&format!("property list {} {} {}", ct.0, it.0, if r.bool() { "vertex_indices" } else { "vertex_index" })).to_string(); b.l(r, &s__) };
                if r.chance(1, 3) { for _ in 0..if r.chance(1, 40) { r.below(140) } else if r.chance(1, 12) { 8 + r.below(30) } else { r.below(3) } { let (t, sz) = pick_t(r); b.l(r, &format!("property {} flags", t)); fa.push(sz); } }
                if text && r.chance(1, 4) { more = *r.pick(&["0", "1 7", "3 0 1 2", "6 0.5 0.5 0.25 1 1e3 0"]); let t = pick_t(r).0; let nm = *r.pick(&["texcoord", "colors", "x"]); b.l(r, &format!("property list uchar {} {}", t, nm)); }
            }
            b.tok("end_header", Tk::Kw); b.eol(r);
            d.header_end = b.buf.len();
            d.res.push((np, if d.has_faces { nf } else { 0 }));
            for _ in 0..np {
                let mut v = [0f64; 3];
                let mut first = true;
                if text { b.lead(r); }
                for p in &lay {
                    if text {
                        if !first { b.sep(r, true); }
                        first = false;
                        match p {
                            Pr::Ax(a, _) => { let (s, x) = num(r); v[*a] = x; b.tok(&s, Tk::Coord); }
                            Pr::Oth(_) => { let s = *r.pick(&["1", "0.5", "-3", "77"]); b.raw(s) }
                        }
                    } else {
                        match p {
                            Pr::Oth(n) => { let j = junk(r, *n); b.buf.extend(j) }
                            Pr::Ax(a, true) => { let x = any_finite(r); v[*a] = x; b.buf.extend_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() }) }
                            Pr::Ax(a, false) => { let x = f32v(r); v[*a] = x as f64; b.buf.extend_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() }) }
                        }
                    }
                }
                d.pts.push(kb(&v));
                b.rec(1, 0);
                if text { b.eol(r) }
            }
            if d.has_faces {
                for _ in 0..nf {
                    let f = {
                        let uns = it.0.starts_with('u');
                        let lim = match it.1 { 1 if uns => 256, 1 => 128, 2 if uns => 65536, 2 => 32768, _ => usize::MAX };
                        // the largest ids matter most
                        let m = np.min(lim);
                        if r.chance(1, 3) && m >= 8 { let f = face(r, m.min(300)); [m - 1 - f[0].min(m - 1), m - 1 - f[1].min(m - 1), m - 1 - f[2].min(m - 1)] } else { face(r, m) }
                    };
                    if text {
                        b.lead(r);
                        for _ in &fb { b.raw("9 "); }
                        b.tok("3", Tk::FaceN);
                        for i in 0..3 { b.sep(r, true); b.tok(&f[i].to_string(), Tk::Index); }
                    } else {
                        for n in &fb { let j = junk(r, *n); b.buf.extend(j) }
                        let mut put = |b: &mut B, x: u32, n: usize| { let y = x.to_be_bytes(); let z = x.to_le_bytes(); if be { b.buf.extend_from_slice(&y[4 - n..]) } else { b.buf.extend_from_slice(&z[..n]) } };
                        let a = b.buf.len();
                        put(&mut b, 3, ct.1);
                        let e = b.buf.len();
                        b.toks.push(Tok { a, b: e, line: 0, kind: Tk::FaceN, np: b.np, nf: b.nf });
                        for i in 0..3 {
                            let a = b.buf.len();
                            put(&mut b, f[i] as u32, it.1);
                            let e = b.buf.len();
                            b.toks.push(Tok { a, b: e, line: 0, kind: Tk::Index, np: b.np, nf: b.nf });
                        }
                        for n in &fa { let j = junk(r, *n); b.buf.extend(j) }
                    }
                    d.faces.push(f);
                    b.rec(0, 1);
                    if text { for _ in &fa { b.raw(" 8"); } if more != "" { b.raw(" "); b.raw(more); } b.eol(r) }
                }
            }
            if r.chance(1, 8) { b.raw("trailing data\n"); }
        }
        Fam::Psl => {
            d.counted = true;
            b.buf.extend(junk(r, 4));
            b.buf.extend_from_slice(&7i32.to_le_bytes());
            b.buf.extend(junk(r, 128));
            let (passes, bp, kind) = if big { let p = 1 + r.below(300); (p, r.below(p), r.below(3)) } else { (if r.chance(1, 20) { r.below(30) } else { r.below(4) }, 0, 9) };
            b.buf.extend_from_slice(&(passes as i32).to_le_bytes());
            b.buf.extend(junk(r, 4 + 368));
            d.header_end = b.buf.len();
            for pa in 0..passes {
                let mut lines = if r.chance(1, 20) { r.below(30) } else { r.below(4) };
                if kind == 0 && pa == bp { lines = np; }
                if kind == 1 && pa == bp { lines = 1 + r.below(300); }
                let bl = r.below(lines.max(1));
                d.blocks.push(b.buf.len());
                b.buf.extend_from_slice(&(lines as i32).to_le_bytes());
                b.buf.extend(junk(r, 4 + 56));
                for li in 0..lines {
                    let n = if kind == 1 && pa == bp && li == bl { np } else if r.chance(1, 4) { 0 } else if r.chance(1, 20) { r.below(300) } else { r.below(6) };
                    d.blocks.push(b.buf.len());
                    b.buf.extend_from_slice(&(n as i32).to_le_bytes());
                    b.buf.extend(junk(r, 12 + 48));
                    for _ in 0..n {
                        let v = [f32v(r), f32v(r), f32v(r)];
                        for x in v { b.buf.extend_from_slice(&x.to_le_bytes()) }
                        d.pts.push(kb(&[v[0] as f64, v[1] as f64, v[2] as f64]));
                        b.rec(1, 0);
                    }
                }
            }
        }
        Fam::StlB => {
            d.counted = true;
            let mut h = junk(r, 80);
            match r.below(8) {
                // text has to be told by the exact word
                0 => { let w: &[u8] = *r.pick(&[&b"SOLID"[..], b"Solid", b"soliD", b"solic", b"soli ", b"solod", b"sol", b"s", b"xsolid", b" solid", b"olid", b"soldi", b"rolid"]); h[..w.len()].copy_from_slice(w); if h.starts_with(b"solid") { h[4] = b'x'; } }
                // only told apart by the caller
                1 => { h[..5].copy_from_slice(b"solid"); if r.bool() { h[5] = b' '; } }
                _ => { if h.starts_with(b"solid") || r.bool() { h[0] = b'x'; } }
            }
            b.buf.extend(h);
            b.buf.extend_from_slice(&(np as u32).to_le_bytes());
            d.header_end = b.buf.len();
            d.res.push((np, 0));
            for _ in 0..np {
                let mut t = [[0u64; 3]; 4];
                for k in 0..4 {
                    let v = if k == 2 && r.chance(1, 12) { let x = t[0]; [f64::from_bits(x[0]) as f32, f64::from_bits(x[1]) as f32, f64::from_bits(x[2]) as f32] } else { [f32v(r), f32v(r), f32v(r)] };
                    for x in v { b.buf.extend_from_slice(&x.to_le_bytes()) }
                    let slot = if k == 0 { 3 } else { k - 1 };
                    t[slot] = kb(&[v[0] as f64, v[1] as f64, v[2] as f64]);
                }
                b.buf.extend(junk(r, 2));
                d.tris.push(t);
                b.rec(1, 0);
            }
            if r.chance(1, 8) { b.raw("trailing"); }
        }
        Fam::Las => {
            d.counted = true;
            let minor = r.below(5) as u8;
            let hs: usize = if minor == 4 { 375 } else if minor == 3 { 235 } else { 227 };
            let mut h = vec![0u8; hs];
            let j = junk(r, hs);
            h.copy_from_slice(&j);
            h[0..4].copy_from_slice(b"LASF");
            h[24] = 1;
            h[25] = minor;
            let gap = if r.bool() { 0 } else if r.chance(1, 400) { 60000 + r.below(20000) } else { r.below(60) };
            let off = hs + gap;
            let rl = if np <= 20 && r.chance(1, 200) { 200 + r.below(40000) } else { 20 + r.below(50) };
            h[94..96].copy_from_slice(&(hs as u16).to_le_bytes());
            h[96..100].copy_from_slice(&(off as u32).to_le_bytes());
            h[104] = r.below(11) as u8;
            h[105..107].copy_from_slice(&(rl as u16).to_le_bytes());
            let legacy = minor < 4 || r.bool();
            h[107..111].copy_from_slice(&(if legacy { np as u32 } else { 0 }).to_le_bytes());
            if minor == 4 { h[247..255].copy_from_slice(&(np as u64).to_le_bytes()); }
            let sc: [f64; 3] = [*r.pick(&[0.001, 0.01, 1.0, 0.25]), *r.pick(&[0.001, 0.01, 1.0, 0.25]), *r.pick(&[0.001, 0.5, 1.0, 2.0])];
            let mut of: [f64; 3] = [r.range(-1000, 1000) as f64, r.f(-10.0, 10.0), 0.0];
            if r.chance(1, 2) { of = [r.f(-1e7, 1e7), r.f(-1e7, 1e7), r.f(-1e4, 1e4)]; }
            let wide = r.bool();
            for i in 0..3 { h[131 + 8 * i..139 + 8 * i].copy_from_slice(&sc[i].to_le_bytes()); h[155 + 8 * i..163 + 8 * i].copy_from_slice(&of[i].to_le_bytes()); }
            b.buf.extend(h);
            b.buf.extend(junk(r, gap));
            d.header_end = hs;
            d.res.push((np, 0));
            for _ in 0..np {
                let v = if wide { [r.u64() as i32, r.u64() as i32, r.u64() as i32] } else { [r.u64() as i32, r.range(-1000, 1000) as i32, r.range(-100000, 100000) as i32] };
                for x in v { b.buf.extend_from_slice(&x.to_le_bytes()) }
                b.buf.extend(junk(r, rl - 12));
                let w = [of[0] + v[0] as f64 * sc[0], of[1] + v[1] as f64 * sc[1], of[2] + v[2] as f64 * sc[2]];
                d.pts.push(kb(&w));
                b.rec(1, 0);
            }
            if r.chance(1, 6) { b.raw("EVLR behind the points"); }
            d.tag = format!("minor {} legacy {} gap {} reclen {}", minor, legacy, gap, rl);
        }
    }
    // text files do not need to end in a line break
    let text = TEXT_FAMS.contains(&fam);
    if text && r.chance(1, 3) {
        while matches!(b.buf.last(), Some(b'\n') | Some(b'\r')) { b.buf.pop(); if b.buf.last() == Some(&b'\n') { break; } }
        if d.ends.last().map(|e| e.0 > b.buf.len()).unwrap_or(false) { b.raw("\n"); }
    }
    d.lines = b.line;
    d.bytes = b.buf;
    d.toks = b.toks;
    d.ends = b.ends;
    d
}

/// which loaders understand a family, and what each must deliver
pub fn readers(d: &Doc, r: &mut Rng) -> Vec<Fmt> {
    match d.fam {
        Fam::Xy => vec![Fmt::Xy],
        Fam::Xyz => vec![Fmt::Xyz],
        Fam::Pts => vec![Fmt::Pts],
        Fam::Ptx => vec![Fmt::Ptx],
        Fam::Off => vec![Fmt::OffM, Fmt::OffP],
        Fam::Obj => vec![Fmt::ObjM, Fmt::ObjP],
        Fam::Gcode => vec![Fmt::Gcode],
        Fam::StlA => { let k = if r.bool() { 0 } else { 2 }; vec![Fmt::StlD(k), Fmt::StlU(k), Fmt::StlT(k)] }
        Fam::StlB => { let k = if r.bool() || d.bytes.starts_with(b"solid") { 1 } else { 2 }; vec![Fmt::StlD(k), Fmt::StlU(k), Fmt::StlT(k)] }
        Fam::PlyA | Fam::PlyLe | Fam::PlyBe => if d.has_faces { vec![Fmt::PlyM, Fmt::PlyP, Fmt::PlyE] } else { vec![Fmt::PlyP, Fmt::PlyE] },
        Fam::Psl => vec![Fmt::Psl],
        Fam::Las => vec![Fmt::Las],
    }
}
pub fn is_points_only(f: Fmt) -> bool { matches!(f, Fmt::OffP | Fmt::ObjP | Fmt::PlyP) }

/// the outcome a correct loader produces for the whole document
pub fn expected(d: &Doc, f: Fmt) -> Out { expected_prefix(d, f, usize::MAX, usize::MAX) }
/// ... if only the first n points (or triangles) and m faces are there
pub fn expected_prefix(d: &Doc, f: Fmt, n: usize, m: usize) -> Out {
    let mut o = Out::default();
    match f {
        Fmt::StlD(_) | Fmt::StlT(_) => {
            for t in d.tris.iter().take(n) {
                let k = o.pts.len();
                o.pts.extend_from_slice(&t[..3]);
                o.norms.push(t[3]);
                if let Fmt::StlD(_) = f { o.faces.push([k, k + 1, k + 2]); }
            }
        }
        Fmt::StlU(_) => {
            // independent uniqueness: bit patterns, 0.0 equals -0.0
            let mut at = std::collections::HashMap::new();
            let key = |a: &[u64; 3]| { let z = |x: u64| if f64::from_bits(x) == 0.0 { 0 } else { x }; (z(a[0]), z(a[1]), z(a[2])) };
            for t in d.tris.iter().take(n) {
                let mut id = [0; 3];
                for k in 0..3 {
                    id[k] = *at.entry(key(&t[k])).or_insert_with(|| { o.pts.push(t[k]); o.pts.len() - 1 });
                }
                if id[0] != id[1] && id[0] != id[2] && id[1] != id[2] { o.faces.push(id); o.norms.push(t[3]); }
            }
        }
        _ => {
            o.pts = d.pts.iter().take(n).cloned().collect();
            if !is_points_only(f) { o.faces = d.faces.iter().take(m).cloned().collect(); }
            if f == Fmt::PlyE { o.which = if d.has_faces { 1 } else { 2 }; }
        }
    }
    o
}
/// compares floats as numbers of the same sign class where the reference may differ in the sign of zero
pub fn same(a: &Out, b: &Out, zero_lax: bool) -> bool {
    let n = |x: u64| if zero_lax && f64::from_bits(x) == 0.0 { 0 } else { x };
    let eqp = |a: &Vec<[u64; 3]>, b: &Vec<[u64; 3]>| a.len() == b.len() && a.iter().zip(b.iter()).all(|(p, q)| (0..3).all(|i| n(p[i]) == n(q[i])));
    eqp(&a.pts, &b.pts) && a.faces == b.faces && eqp(&a.norms, &b.norms)
}
pub fn is_prefix(a: &Out, full: &Out, zero_lax: bool) -> bool {
    let n = |x: u64| if zero_lax && f64::from_bits(x) == 0.0 { 0 } else { x };
    let pre = |a: &Vec<[u64; 3]>, b: &Vec<[u64; 3]>| a.len() <= b.len() && a.iter().zip(b.iter()).all(|(p, q)| (0..3).all(|i| n(p[i]) == n(q[i])));
    pre(&a.pts, &full.pts) && a.faces.len() <= full.faces.len() && a.faces.iter().zip(full.faces.iter()).all(|(x, y)| x == y) && pre(&a.norms, &full.norms)
}
