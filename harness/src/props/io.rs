//! C01..C07: loaders, savers and incremental iterators of the io module.
use crate::alloc;
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::iokit::*;
use rust_3d::io::*;
use rust_3d::*;
use std::cell::RefCell;
use std::io::Cursor;

fn zero_lax(d: &Doc) -> bool { d.fam == Fam::Ptx }

/// folds iterator events into the outcome the matching loader must produce
fn fold(f: Fmt, w: &Walk) -> Out {
    let mut o = Out::default();
    for e in &w.evs {
        match e {
            Ev::P(p) => o.pts.push(*p),
            Ev::F(x) => o.faces.push(*x),
            Ev::T(t) => { o.pts.extend_from_slice(&t[..3]); o.norms.push(t[3]); }
            Ev::Res(..) => {}
            Ev::E(x) => { if o.err.is_none() { o.err = Some(x.clone()) } }
        }
    }
    let _ = f;
    o
}
fn fp_out(ctx: &mut Ctx, o: &Out) {
    ctx.fpu(o.pts.len() as u64);
    for p in o.pts.iter().take(64) { for x in p { ctx.fpu(*x); } }
    for f in o.faces.iter().take(64) { for x in f { ctx.fpu(*x as u64); } }
    ctx.fpu(o.err.is_some() as u64);
}

// ---------------------------------------------------------------- C03 / C04
fn valid_doc(ctx: &mut Ctx, fams: &[Fam]) -> R {
    let fam = *ctx.rng.pick(fams);
    let huge = !ctx.tiny && ctx.rng.chance(1, 1500);
    let d = if huge { ctx.count("huge_docs", 1); doc_huge(ctx, fam) } else { doc(ctx, fam) };
    if ctx.want_desc { ctx.note(format!("{:?} {} {}", d.fam, d.tag, show_bytes(&d.bytes))); }
    ctx.fpb(&d.bytes);
    ctx.count(&format!("docs_{:?}", fam), 1);
    ctx.count("records", d.ends.len() as u64);
    if d.ends.len() > 1 { ctx.nontrivial = true; }
    let fmts = readers(&d, &mut ctx.rng);
    for f in fmts {
        let want = expected(&d, f);
        let got = load(f, Cursor::new(&d.bytes[..]));
        ctx.count("loads", 1);
        ensure!(got.err.is_none(), format!("reject {:?}", fam), "{:?} rejected a valid file: {:?} file={}", f, got.err, show_bytes(&d.bytes));
        ensure!(same(&got, &want, zero_lax(&d)) && got.which == want.which, format!("content {:?}", fam), "{:?} delivered {} but the file holds {} file={}", f, got.brief(), want.brief(), show_bytes(&d.bytes));
        if let Some(w) = iterate(f, Cursor::new(&d.bytes[..]), d.bytes.len() + 100) {
            let o = fold(f, &w);
            ctx.count("iterators", 1);
            ensure!(o.err.is_none() && same(&o, &want, zero_lax(&d)), format!("iterator {:?}", fam), "{:?} iterator delivered {} but the file holds {} file={}", f, o.brief(), want.brief(), show_bytes(&d.bytes));
            ensure!(w.after_end == 0, format!("fused {:?}", fam), "{:?} iterator delivered {} items after its end", f, w.after_end);
            let res: Vec<(usize, usize)> = w.evs.iter().filter_map(|e| if let Ev::Res(a, b) = e { Some((*a, *b)) } else { None }).collect();
            let want_res: Vec<(usize, usize)> = d.res.iter().map(|x| if is_points_only(f) { (x.0, 0) } else { *x }).collect();
            ensure!(res == want_res, format!("announced {:?}", fam), "{:?} iterator announced {:?} but the file declares {:?} file={}", f, res, want_res, show_bytes(&d.bytes));
        }
        // other containers receive the same data
        match (f, ctx.rng.below(3)) {
            (Fmt::OffM, 0) | (Fmt::ObjM, 0) | (Fmt::PlyM, 0) => {
                let mut m = Msh32::default();
                let c = Cursor::new(&d.bytes[..]);
                let ok = match f { Fmt::OffM => load_off_mesh(c, &mut m).is_ok(), Fmt::ObjM => load_obj_mesh(c, &mut m).is_ok(), _ => load_ply_mesh(c, &mut m).is_ok() };
                let vs: Vec<[u64; 3]> = (0..m.num_vertices()).map(|i| k3(&m.vertex(VId(i)).unwrap())).collect();
                let fs: Vec<[usize; 3]> = (0..m.num_faces()).map(|i| { let f = m.face_vertex_ids(FId(i)).unwrap(); [f.a.0, f.b.0, f.c.0] }).collect();
                ensure!(ok && vs == got.pts && fs == got.faces, format!("container {:?}", fam), "{:?} into a u32 indexed mesh differs: {} vertices {} faces, ok {}", f, vs.len(), fs.len(), ok);
                ctx.count("other_containers", 1);
            }
            (Fmt::Xyz, 0) | (Fmt::Pts, 0) | (Fmt::Las, 0) | (Fmt::Gcode, 0) | (Fmt::PlyP, 0) | (Fmt::Psl, 0) => {
                let mut v: Vec<Point3D> = vec![Point3D::new(9.0, 8.0, 7.0)];
                let c = Cursor::new(&d.bytes[..]);
                let ok = match f { Fmt::Xyz => load_xyz(c, &mut v).is_ok(), Fmt::Pts => load_pts(c, &mut v).is_ok(), Fmt::Las => load_las(c, &mut v).is_ok(), Fmt::Gcode => load_gcode_points(c, &mut v).is_ok(), Fmt::PlyP => load_ply_points(c, &mut v).is_ok(), _ => load_psl(c, &mut v).is_ok() };
                let ks: Vec<[u64; 3]> = v.iter().skip(1).map(|p| k3(p)).collect();
                ensure!(ok && ks == got.pts && v[0] == Point3D::new(9.0, 8.0, 7.0), format!("container {:?}", fam), "{:?} into a Vec that held one point: {} points, ok {}", f, v.len(), ok);
                ctx.count("other_containers", 1);
            }
            _ => {}
        }
    }
    Ok(())
}
fn c03(ctx: &mut Ctx) -> R { valid_doc(ctx, &TEXT_FAMS) }
fn c04(ctx: &mut Ctx) -> R { valid_doc(ctx, &BIN_FAMS) }

// ---------------------------------------------------------------- C05
const GARBAGE: [&[u8]; 14] = [b"abc", b"1.2.3", b"--1", b"0x10", b"1e", b"e5", b"1_000", b"nan1", b"\xd9\xa3", b"\xff\xfe", b"1f", b"+-3", b"1e5e2", b"."];

fn splice(d: &Doc, a: usize, b: usize, with: &[u8]) -> Vec<u8> {
    let mut v = d.bytes[..a].to_vec();
    v.extend_from_slice(with);
    v.extend_from_slice(&d.bytes[b..]);
    v
}
fn line_of(bytes: &[u8], no: usize) -> String {
    let l = bytes.split(|x| *x == b'\n').nth(no - 1).unwrap_or(&[]);
    String::from_utf8_lossy(l).trim().to_string()
}
/// must be rejected; what was delivered before must be a prefix of the truth
fn must_reject(ctx: &mut Ctx, d: &Doc, f: Fmt, bytes: &[u8], what: &str, full: &Out, line: Option<usize>) -> R { must_reject2(ctx, d, f, bytes, what, full, line, true) }

/// iter: an iterator has to notice it as well (it can't for ids of vertices that might still follow)
fn must_reject2(ctx: &mut Ctx, d: &Doc, f: Fmt, bytes: &[u8], what: &str, full: &Out, line: Option<usize>, iter: bool) -> R {
    let got = load(f, Cursor::new(bytes));
    ctx.count("rejections_checked", 1);
    ensure!(got.err.is_some(), format!("accepted {} {:?}", what, d.fam), "{:?} accepted a file with {}: {} file={}", f, what, got.brief(), show_bytes(bytes));
    ensure!(is_prefix(&got, full, zero_lax(d)), format!("prefix {} {:?}", what, d.fam), "{:?} with {}: delivered {} before the error, the intact part holds {} file={}", f, what, got.brief(), full.brief(), show_bytes(bytes));
    if let Some(no) = line {
        let e = got.err.as_ref().unwrap();
        if e.kind > 0 {
            ensure!(e.line == no, format!("line {} {:?}", what, d.fam), "{:?} with {} in line {}: reported line {} ({}) file={}", f, what, no, e.line, e.shown, show_bytes(bytes));
            ctx.count("line_numbers_checked", 1);
        }
        if e.kind == 2 {
            let want = line_of(bytes, no);
            ensure!(e.text.trim() == want, format!("linetext {} {:?}", what, d.fam), "{:?} with {}: reported text {:?}, line {} is {:?}", f, what, e.text, no, want);
        }
    }
    if let Some(w) = iterate(f, Cursor::new(bytes), bytes.len() + 100) {
        let o = fold(f, &w);
        ensure!(o.err.is_some() || !iter, format!("iter accepted {} {:?}", what, d.fam), "{:?} iterator accepted a file with {} file={}", f, what, show_bytes(bytes));
        ensure!(w.after_err == 0 && w.after_end == 0, format!("iter after error {:?}", d.fam), "{:?} iterator delivered {} items after its error and {} after its end ({}) file={}", f, w.after_err, w.after_end, what, show_bytes(bytes));
        ctx.count("iterators_stopped", 1);
    }
    Ok(())
}

fn c05(ctx: &mut Ctx) -> R {
    let fam = if ctx.rng.chance(2, 3) { *ctx.rng.pick(&TEXT_FAMS) } else { *ctx.rng.pick(&BIN_FAMS) };
    if ctx.rng.chance(1, 12) { return bad_header(ctx); }
    if ctx.rng.chance(1, 10) { return unsupported(ctx); }
    let d = if !ctx.tiny && ctx.rng.chance(1, 4000) { ctx.count("huge_docs", 1); doc_huge(ctx, fam) } else { doc(ctx, fam) };
    let text = TEXT_FAMS.contains(&fam);
    let fmts = readers(&d, &mut ctx.rng);
    let f = *ctx.rng.pick(&fmts);
    let full = expected(&d, f);
    if d.counted && ctx.rng.chance(1, 8) { return overcount(ctx, &d, f, &full); }
    let mode = ctx.rng.below(2);
    if mode == 0 && !d.ends.is_empty() {
        // truncation
        if !text {
            // everything a reader needs ends with its last record
            let last = if is_points_only(f) { d.ends.iter().filter(|e| e.2 == 0).last().map(|e| e.0) } else { d.ends.last().map(|e| e.0) };
            let last = match last { Some(x) => x, None => return Ok(()) };
            let cut = match ctx.rng.below(4) { 0 => d.ends[ctx.rng.below(d.ends.len())].0.min(last - 1), 1 => last - 1, _ => ctx.rng.below(last) };
            // bytes behind the coordinates of the last record are not needed to know it
            let bytes = &d.bytes[..cut];
            ctx.fpb(bytes);
            ctx.nontrivial = true;
            ctx.count("truncated_binary", 1);
            if ctx.want_desc { ctx.note(format!("{:?} cut at {} of {}", fam, cut, d.bytes.len())); }
            let n = d.ends.iter().filter(|e| e.0 <= cut).map(|e| (e.1, e.2)).last().unwrap_or((0, 0));
            let part = expected_prefix(&d, f, n.0, n.1);
            must_reject(ctx, &d, f, bytes, "missing end", &part, None)?;
            return Ok(());
        }
        if d.counted && !d.pts.is_empty() && ctx.rng.chance(1, 8) {
            // nothing behind the header
            let first = match d.toks.iter().filter(|t| t.kind == Tk::Coord).map(|t| t.a).min() { Some(x) => x, None => return Ok(()) };
            let cut = match d.bytes[..first].iter().rposition(|x| *x == b'\n') { Some(x) => x + 1, None => return Ok(()) };
            let bytes = &d.bytes[..cut - ctx.rng.below(2)];
            ctx.fpb(bytes);
            ctx.nontrivial = true;
            if ctx.want_desc { ctx.note(format!("{:?} header only: {}", fam, show_bytes(bytes))); }
            ctx.count("truncated_to_header", 1);
            let part = expected_prefix(&d, f, 0, 0);
            return must_reject(ctx, &d, f, bytes, "missing records", &part, None);
        }
        let k = ctx.rng.below(d.ends.len());
        let (cut, np, nf) = d.ends[k];
        let mut bytes = d.bytes[..cut].to_vec();
        if ctx.rng.bool() { bytes.push(b'\n'); }
        ctx.fpb(&bytes);
        ctx.nontrivial = true;
        if ctx.want_desc { ctx.note(format!("{:?} behind record {} of {}: {}", fam, k, d.ends.len(), show_bytes(&bytes))); }
        let part = expected_prefix(&d, f, np, nf);
        if d.counted {
            let complete = match fam {
                Fam::Pts | Fam::Ptx => d.blocks.contains(&np),
                _ => if is_points_only(f) { np == d.pts.len() } else { k + 1 == d.ends.len() },
            };
            if !complete {
                ctx.count("truncated_counted_text", 1);
                must_reject(ctx, &d, f, &bytes, "missing records", &part, None)?;
            }
        } else if fam == Fam::StlA {
            // within the following facet
            let inner: Vec<&Tok> = d.toks.iter().filter(|t| t.np == np && t.a > cut && &d.bytes[t.a..t.b] != b"facet").collect();
            if inner.is_empty() { return Ok(()); }
            let t = ctx.rng.pick(&inner);
            let cut2 = if ctx.rng.bool() || t.kind == Tk::Coord { d.bytes[..t.a].iter().rposition(|x| *x == b'\n').unwrap() + 1 } else { t.b - 1 };
            ctx.count("truncated_facet", 1);
            must_reject(ctx, &d, f, &d.bytes[..cut2], "an incomplete facet", &part, None)?;
        } else {
            // no amount declared: what is there must be loaded
            let got = load(f, Cursor::new(&bytes[..]));
            ctx.count("truncated_open", 1);
            ensure!(got.err.is_none() && same(&got, &part, zero_lax(&d)), format!("open end {:?}", fam), "{:?} delivered {} for a file holding {} file={}", f, got.brief(), part.brief(), show_bytes(&bytes));
        }
        return Ok(());
    }
    if d.toks.is_empty() { return Ok(()); }
    if matches!(fam, Fam::Xyz | Fam::Pts | Fam::Off | Fam::Obj | Fam::StlA) && ctx.rng.chance(1, 6) { return structure(ctx, &d, f); }
    // one damaged token
    let t = d.toks[ctx.rng.below(d.toks.len())].clone();
    let mut line = if text { Some(t.line) } else { None };
    let mut out_of_range = false;
    let g: Vec<u8> = match t.kind {
        Tk::Coord | Tk::Matrix => ctx.rng.pick(&GARBAGE).to_vec(),
        // a blank line
        Tk::Count if fam == Fam::Ptx && ctx.rng.chance(1, 3) => vec![],
        Tk::Count => match ctx.rng.below(3) { 0 => b"-1".to_vec(), 1 => b"99999999999999999999999".to_vec(), _ => ctx.rng.pick(&GARBAGE).to_vec() },
        Tk::Kw => match ctx.rng.below(4) {
            // shortened, or the keyword of another line
            0 => { let k = d.bytes[t.a..t.b].to_vec(); let n = if k.contains(&b' ') { 5 } else { k.len() }; let n = if fam == Fam::StlA { n - if n < k.len() { ctx.rng.below(3) } else { 1 + ctx.rng.below(3) } } else { 1 }; k[..n].to_vec() }
            1 if fam == Fam::StlA => { let k: &[&[u8]] = &[b"facet", b"outer loop", b"vertex", b"endloop", b"endfacet", b"end", b"solid", b"loop"]; let k: Vec<&&[u8]> = k.iter().filter(|k| **k != &d.bytes[t.a..t.b]).collect(); ctx.rng.pick(&k).to_vec() }
            _ => b"xyz".to_vec(),
        },
        Tk::FaceN => if text { ctx.rng.pick(&[&b"4"[..], b"2", b"0", b"x", b"-3", b"33", b"7", b"11", b"259", b"131"]).to_vec() } else {
            let mut v = d.bytes[t.a..t.b].to_vec();
            let i = ctx.rng.below(v.len());
            v[i] ^= *ctx.rng.pick(&[7u8, 1, 2, 4, 0x80, 0x10, 0xff]);
            v
        },
        Tk::Index => if text {
            match ctx.rng.below(3) {
                0 => { line = None; out_of_range = true; (d.pts.len() + 1 + ctx.rng.below(5)).to_string().into_bytes() }
                1 if fam == Fam::Obj => b"0".to_vec(),
                1 => b"-1".to_vec(),
                _ => ctx.rng.pick(&GARBAGE).to_vec(),
            }
        } else {
            let n = t.b - t.a;
            // a negative id is none, whatever the amount of vertices
            let head = String::from_utf8_lossy(&d.bytes[..d.header_end]).to_string();
            let signed = head.lines().filter(|l| l.starts_with("property list")).next().and_then(|l| l.split_whitespace().nth(3).map(|w| !w.starts_with('u'))).unwrap_or(false);
            if signed && ctx.rng.bool() {
                ctx.count("negative_ids", 1);
                out_of_range = true;
                let g = vec![if ctx.rng.bool() { 0xff } else { 0x80 + ctx.rng.below(128) as u8 }; n];
                return damaged(ctx, &d, f, &t, &g, None, out_of_range, &full);
            }
            if n == 1 && d.pts.len() > 127 { return Ok(()); }
            if n == 2 && d.pts.len() > 32639 { return Ok(()); }
            out_of_range = true;
            vec![0x7f; n]
        },
    };
    damaged(ctx, &d, f, &t, &g, line, out_of_range, &full)
}

#[allow(clippy::too_many_arguments)]
fn damaged(ctx: &mut Ctx, d: &Doc, f: Fmt, t: &Tok, g: &[u8], line: Option<usize>, out_of_range: bool, full: &Out) -> R {
    let fam = d.fam;
    let ign = is_points_only(f) && (matches!(t.kind, Tk::Index | Tk::FaceN));
    // OFF with a damaged count of faces read as points only is fine
    let bytes = splice(d, t.a, t.b, g);
    ctx.fpb(&bytes);
    ctx.nontrivial = true;
    if ctx.want_desc { ctx.note(format!("{:?} token {:?} line {} -> {}", fam, t, t.line, show_bytes(g))); }
    ctx.count(&format!("damaged_{:?}", t.kind), 1);
    if ign {
        let got = load(f, Cursor::new(&bytes[..]));
        ensure!(is_prefix(&got, full, false), format!("points only {:?}", fam), "{:?} with damaged faces: {} is no prefix of {}", f, got.brief(), full.brief());
        return Ok(());
    }
    if t.kind == Tk::Count && fam == Fam::Off && f == Fmt::OffP {
        // only the first count matters
        if d.bytes[..t.a].iter().rev().take_while(|x| **x != b'\n').any(|x| x.is_ascii_digit()) { return Ok(()); }
    }
    // the header of a .ply file is always read as a whole
    let part = expected_prefix(d, f, t.np, t.nf);
    must_reject2(ctx, d, f, &bytes, &format!("a damaged {:?}", t.kind), &part, line, !out_of_range)
}

/// the last count of a file is larger than what follows
fn overcount(ctx: &mut Ctx, d: &Doc, f: Fmt, full: &Out) -> R {
    let extra = *ctx.rng.pick(&[1usize, 1, 2, 7, 256, 65_536, 1_000_003, 20_000_000, 900_000_000, 2_000_000_000]);
    let mut bytes = d.bytes.clone();
    let behind = d.ends.last().map(|e| e.0) != Some(d.bytes.len());
    let put = |bytes: &mut Vec<u8>, at: usize, n: usize| {
        let mut x = [0u8; 8];
        x[..n].copy_from_slice(&bytes[at..at + n]);
        let y = (u64::from_le_bytes(x) + extra as u64).to_le_bytes();
        bytes[at..at + n].copy_from_slice(&y[..n]);
    };
    match d.fam {
        Fam::StlB if !behind => put(&mut bytes, 80, 4),
        Fam::Las if !behind => {
            let legacy = d.tag.contains("legacy true");
            if legacy { put(&mut bytes, 107, 4) }
            if d.tag.starts_with("minor 4") { put(&mut bytes, 247, 8) }
        }
        Fam::Psl => {
            let at = if ctx.rng.bool() { 136 } else { *d.blocks.last().unwrap_or(&136) };
            put(&mut bytes, at, 4)
        }
        Fam::Pts | Fam::Ptx | Fam::Off | Fam::PlyA | Fam::PlyLe | Fam::PlyBe => {
            let c: Vec<&Tok> = d.toks.iter().filter(|t| t.kind == Tk::Count).collect();
            if c.is_empty() { return Ok(()); }
            let num = |t: &Tok| String::from_utf8_lossy(&d.bytes[t.a..t.b]).parse::<usize>().unwrap_or(0);
            let t = c[c.len() - 1];
            if d.fam == Fam::Ptx && num(c[c.len() - 2]) == 0 { return Ok(()); }
            if d.has_faces && is_points_only(f) { return Ok(()); }
            if matches!(d.fam, Fam::PlyLe | Fam::PlyBe) && behind { return Ok(()); }
            bytes = splice(d, t.a, t.b, (num(t) + extra).to_string().as_bytes());
        }
        _ => return Ok(()),
    }
    ctx.fpb(&bytes);
    ctx.nontrivial = true;
    ctx.count("counts_too_large", 1);
    ctx.count(&format!("count_too_large_{:?}", d.fam), 1);
    if ctx.want_desc { ctx.note(format!("{:?} last count larger by {}", d.fam, extra)); }
    must_reject(ctx, d, f, &bytes, "a count that is too large", full, None)
}

/// a missing or repeated line, a missing word
fn structure(ctx: &mut Ctx, d: &Doc, f: Fmt) -> R {
    let t = d.toks[ctx.rng.below(d.toks.len())].clone();
    let (la, lb) = (d.bytes[..t.a].iter().rposition(|x| *x == b'\n').map(|x| x + 1).unwrap_or(0), d.bytes[t.a..].iter().position(|x| *x == b'\n').map(|x| x + t.a + 1).unwrap_or(d.bytes.len()));
    let part = expected_prefix(d, f, t.np, t.nf);
    if d.fam == Fam::StlA && ctx.rng.bool() {
        let dup = ctx.rng.bool();
        // the line that follows ends the file: nothing is wrong up to there
        let bytes = if dup { splice(d, lb, lb, &d.bytes[la..lb]) } else { splice(d, la, lb, b"") };
        let word = &d.bytes[t.a..t.b];
        // a repeated vertex is found where the loop should end, and a missing one as well
        if dup && lb == d.bytes.len() && d.bytes.last() != Some(&b'\n') { return Ok(()); }
        let part = if dup && word == b"endfacet" { expected_prefix(d, f, t.np + 1, 0) } else { part };
        // a missing last line can not be told from a missing end
        ctx.fpb(&bytes);
        ctx.nontrivial = true;
        if ctx.want_desc { ctx.note(format!("{:?} line {} {}", d.fam, t.line, if dup { "twice" } else { "missing" })); }
        ctx.count("damaged_lines", 1);
        return must_reject2(ctx, d, f, &bytes, if dup { "a repeated line" } else { "a missing line" }, &part, None, true);
    }
    if t.kind != Tk::Coord { return Ok(()); }
    let need = if matches!(d.fam, Fam::Obj | Fam::StlA) { 4 } else { 3 };
    let bytes = splice(d, t.a, t.b, b"");
    let e = lb - (t.b - t.a);
    if d.bytes[la..lb].split(|x| x.is_ascii_whitespace()).filter(|x| !x.is_empty()).count() != need || bytes[la..e].split(|x| x.is_ascii_whitespace()).filter(|x| !x.is_empty()).count() >= need { return Ok(()); }
    ctx.fpb(&bytes);
    ctx.nontrivial = true;
    if ctx.want_desc { ctx.note(format!("{:?} word missing in line {}", d.fam, t.line)); }
    ctx.count("missing_words", 1);
    must_reject2(ctx, d, f, &bytes, "a missing coordinate", &part, Some(t.line), true)
}

/// structure no loader can represent: it must say so instead of delivering something else
fn unsupported(ctx: &mut Ctx) -> R {
    let fam = *ctx.rng.pick(&[Fam::Obj, Fam::Obj, Fam::PlyLe, Fam::PlyBe, Fam::PlyA]);
    let d = doc(ctx, fam);
    if !d.has_faces { return Ok(()); }
    if fam == Fam::Obj {
        let ids: Vec<&Tok> = d.toks.iter().filter(|t| t.kind == Tk::Index).collect();
        if ids.is_empty() { return Ok(()); }
        let t = ids[ctx.rng.below(ids.len() / 3) * 3 + 2];
        let extra = format!(" {}", 1 + ctx.rng.below(d.pts.len()));
        let n = 1 + ctx.rng.below(3);
        let e = d.bytes[t.b..].iter().position(|x| x.is_ascii_whitespace()).map(|x| t.b + x).unwrap_or(d.bytes.len());
        let bytes = splice(&d, e, e, extra.repeat(n).as_bytes());
        ctx.fpb(&bytes);
        ctx.nontrivial = true;
        ctx.count("faces_too_large", 1);
        if ctx.want_desc { ctx.note(format!("{} more vertices for face {} in line {}", n, t.nf, t.line)); }
        let part = expected_prefix(&d, Fmt::ObjM, t.np, t.nf);
        return must_reject(ctx, &d, Fmt::ObjM, &bytes, "a face with more than three vertices", &part, Some(t.line));
    }
    if d.faces.is_empty() { return Ok(()); }
    let end = d.bytes[..d.header_end].windows(11).rposition(|w| w == b"\nend_header").unwrap() + 1;
    let nl = d.bytes[..end].contains(&b'\r');
    let nl = if nl { "\r\n" } else { "\n" };
    // header lines as they are
    let head = String::from_utf8_lossy(&d.bytes[..end]).to_string();
    let list = head.find("\nproperty list").unwrap() + 1;
    let face = head.find("\nelement face").unwrap() + 1;
    let vert = head.find("\nelement vertex").unwrap() + 1;
    let k = ctx.rng.below(3);
    let bytes = match k {
        0 if fam != Fam::PlyA => { ctx.count("ply_further_list", 1); splice(&d, end, end, format!("property list uchar float texcoord{}", nl).as_bytes()) }
        0 | 1 => { ctx.count("ply_leading_list", 1); splice(&d, list, list, format!("property list uchar float texcoord{}", nl).as_bytes()) }
        _ => {
            if face < vert { return Ok(()); }
            ctx.count("ply_faces_first", 1);
            let mut v = d.bytes[..vert].to_vec();
            v.extend_from_slice(&d.bytes[face..end]);
            v.extend_from_slice(&d.bytes[vert..face]);
            v.extend_from_slice(&d.bytes[end..]);
            v
        }
    };
    ctx.fpb(&bytes);
    ctx.nontrivial = true;
    if ctx.want_desc { ctx.note(format!("{:?} unsupported header {}: {}", fam, k, show_bytes(&bytes))); }
    let none = expected_prefix(&d, Fmt::PlyM, 0, 0);
    if k == 2 {
        for f in [Fmt::PlyM, Fmt::PlyP] { must_reject(ctx, &d, f, &bytes, "the faces ahead of the vertices", &none, None)?; }
        return Ok(());
    }
    let part = expected_prefix(&d, Fmt::PlyM, d.pts.len(), 0);
    must_reject(ctx, &d, Fmt::PlyM, &bytes, "a further list in the faces", &part, None)?;
    // the points don't depend on it
    let got = load(Fmt::PlyP, Cursor::new(&bytes[..]));
    let want = expected(&d, Fmt::PlyP);
    ctx.count("points_in_spite_of_faces", 1);
    ensure!(got.err.is_none() && same(&got, &want, false), format!("points in spite of faces {:?}", fam), "{:?} with a further list in the faces delivers {} instead of {} file={}", fam, got.brief(), want.brief(), show_bytes(&bytes));
    Ok(())
}

fn bad_header(ctx: &mut Ctx) -> R {
    ctx.count("bad_headers", 1);
    ctx.nontrivial = true;
    let k = ctx.rng.below(21);
    let (f, bytes): (Vec<Fmt>, Vec<u8>) = match k {
        0..=5 => {
            let d = doc(ctx, Fam::Las);
            let mut b = d.bytes.clone();
            match k {
                0 => b[ctx.rng.below(4)] ^= 1 << ctx.rng.below(8),
                1 => b[24] = 2 + ctx.rng.below(200) as u8,
                2 => b[25] = 5 + ctx.rng.below(200) as u8,
                3 => b[104] = 11 + ctx.rng.below(200) as u8,
                4 => { let x = ctx.rng.below(12) as u16; b[105..107].copy_from_slice(&x.to_le_bytes()) }
                _ => {
                    if d.pts.is_empty() { return Ok(()); }
                    let x = (b.len() + ctx.rng.below(1000)) as u32;
                    b[96..100].copy_from_slice(&x.to_le_bytes())
                }
            }
            (vec![Fmt::Las], b)
        }
        6 => {
            let d = doc(ctx, Fam::StlB);
            let mut b = d.bytes.clone();
            let x = 1_000_000_001u32 + ctx.rng.below(3_000_000_000) as u32;
            b[80..84].copy_from_slice(&x.to_le_bytes());
            (vec![Fmt::StlD(1), Fmt::StlU(1), Fmt::StlT(1)], b)
        }
        20 => {
            // more points than can be counted; in 64 bits the product is a small number
            let (sh, low) = (32 + ctx.rng.below(31), ctx.rng.below(3) as u64);
            let (c, r) = ((1u128 << (64 - sh)).to_string(), (1u64 << sh) as u128 + low as u128);
            let (c, r) = if ctx.rng.bool() { (c, r.to_string()) } else { (r.to_string(), c) };
            let n = low << (64 - sh).min(8);
            let mut s = format!("{}\n{}\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n", c, r);
            for _ in 0..n { s += "1 2 3 0.5\n"; }
            (vec![Fmt::Ptx], s.into_bytes())
        }
        7 => {
            let n = ctx.rng.below(5);
            (vec![Fmt::StlD(0), Fmt::StlT(1), Fmt::StlU(2)], b"solid"[..n].to_vec())
        }
        _ => {
            let pv = "property float x\nproperty float y\nproperty float z\n";
            let fc = "element face 1\nproperty list uchar int vertex_indices\n";
            let body = "end_header\n0 0 0\n1 0 0\n0 1 0\n3 0 1 2\n";
            let h = "ply\nformat ascii 1.0\n";
            let ev = "element vertex 3\n";
            let s: String = match k {
                8 => format!("{}{}{}{}", h, ev, "property float x\nproperty float y\n", body),
                9 => format!("{}{}{}property float x\n{}", h, ev, pv, body),
                10 => format!("{}{}property float x\nproperty float x\nproperty float y\n{}", h, ev, body),
                11 => format!("{}{}property int x\nproperty float y\nproperty float z\n{}", h, ev, body),
                12 => format!("{}{}{}", h, pv, body),
                13 => format!("{}{}{}element edge 3\n{}", h, ev, pv, body),
                14 => format!("ply\n{}{}{}", ev, pv, body),
                15 => format!("{}{}property real x\nproperty float y\nproperty float z\n{}", h, ev, body),
                16 => format!("{}{}{}element face 1\nproperty list uchar float vertex_indices\n{}", h, ev, pv, body),
                17 => format!("{}{}{}{}", h, ev, pv, fc),
                18 => format!("{}element vertex x\n{}{}{}", h, pv, fc, body),
                _ => format!("{}{}property float\nproperty float y\nproperty float z\n{}", h, ev, body),
            };
            (vec![Fmt::PlyM, Fmt::PlyP, Fmt::PlyE], s.into_bytes())
        }
    };
    ctx.fpb(&bytes);
    if ctx.want_desc { ctx.note(format!("bad header {}: {}", k, show_bytes(&bytes))); }
    for f in f {
        let got = load(f, Cursor::new(&bytes[..]));
        ensure!(got.err.is_some(), format!("bad header {}", k), "{:?} accepted a broken header: {} file={}", f, got.brief(), show_bytes(&bytes));
        ensure!(got.pts.is_empty() && got.faces.is_empty(), format!("bad header data {}", k), "{:?} delivered data in spite of a broken header: {}", f, got.brief());
        ctx.count("rejections_checked", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C01
fn mutate(ctx: &mut Ctx, v: &mut Vec<u8>) {
    let n = 1 + ctx.rng.below(6);
    for _ in 0..n {
        let l = v.len();
        match ctx.rng.below(14) {
            0 if l > 0 => { let i = ctx.rng.below(l); v[i] ^= 1 << ctx.rng.below(8); }
            1 if l > 0 => { let i = ctx.rng.below(l); v[i] = *ctx.rng.pick(&[0u8, 0xff, 0x7f, 0x80, b'\n', b' ', b'-', b'0', b'9', b'/', b'\r', 0x85, 0xa0]); }
            2 => { let i = ctx.rng.below(l + 1); let b = ctx.rng.u64() as u8; v.insert(i, b); }
            3 if l > 0 => { let i = ctx.rng.below(l); v.truncate(i); }
            4 if l > 1 => { let i = ctx.rng.below(l); let j = (i + ctx.rng.below(12)).min(l); v.drain(i..j); }
            5 | 6 if l > 0 => {
                // replace one number like word
                let ds: Vec<usize> = (0..l).filter(|i| v[*i].is_ascii_digit() && (*i == 0 || !v[*i - 1].is_ascii_digit())).collect();
                if ds.is_empty() { continue; }
                let a = *ctx.rng.pick(&ds);
                let mut b = a;
                while b < l && v[b].is_ascii_digit() { b += 1; }
                let w: &[u8] = ctx.rng.pick(&[&b"0"[..], b"-1", b"18446744073709551615", b"18446744073709551616", b"4294967296", b"9223372036854775807", b"1e308", b"1e999", b"-0", b"nan", b"inf", b"", b"6148914691236517206", b"3074457345618258603", b"1000000000"]);
                v.splice(a..b, w.iter().cloned());
            }
            7 | 8 => {
                let i = ctx.rng.below(l + 1);
                if !ctx.dict.strs.is_empty() {
                    let j = ctx.rng.below(ctx.dict.strs.len());
                    let s = ctx.dict.strs[j].clone();
                    v.splice(i..i, s);
                }
            }
            9 => {
                // swap or duplicate lines
                let mut ls: Vec<Vec<u8>> = v.split(|x| *x == b'\n').map(|x| x.to_vec()).collect();
                let a = ctx.rng.below(ls.len());
                let b = ctx.rng.below(ls.len());
                match ctx.rng.below(3) { 0 => ls.swap(a, b), 1 => { let x = ls[a].clone(); ls.insert(b, x) } _ => { ls.remove(a); } }
                *v = ls.join(&b'\n');
            }
            10 if l >= 8 => { let i = ctx.rng.below(l - 7); let x = *ctx.rng.pick(&[u64::MAX, i64::MAX as u64, 1 << 32, 0x7fff_ffff, 0xffff_ffff, 0, 1 << 63]); let n = *ctx.rng.pick(&[2usize, 4, 8]); v[i..i + n].copy_from_slice(&x.to_le_bytes()[..n]); }
            11 if l > 4 => {
                // counters sit in the first bytes of the binary formats
                let i = ctx.rng.below(l.min(260));
                v[i] = *ctx.rng.pick(&[0u8, 1, 3, 0x7f, 0x80, 0xff]);
            }
            12 if l > 0 => { for x in v.iter_mut() { if *x == b'\n' && ctx.rng.chance(1, 6) { *x = b' ' } } }
            _ => { let i = ctx.rng.below(l + 1); let n = ctx.rng.below(40); let j: Vec<u8> = (0..n).map(|_| ctx.rng.u64() as u8).collect(); v.splice(i..i, j); }
        }
        if v.len() > 60_000 { v.truncate(60_000); }
    }
}

fn hostile(ctx: &mut Ctx) -> (Vec<u8>, Fam) {
    let fam = if ctx.rng.bool() { *ctx.rng.pick(&TEXT_FAMS) } else { *ctx.rng.pick(&BIN_FAMS) };
    let mut v = match ctx.rng.below(12) {
        0 => { let n = ctx.rng.below(600); (0..n).map(|_| ctx.rng.u64() as u8).collect() }
        1 => {
            let n = ctx.rng.below(60);
            let mut v = vec![];
            for _ in 0..n {
                if ctx.dict.strs.is_empty() { break; }
                let i = ctx.rng.below(ctx.dict.strs.len());
                v.extend_from_slice(&ctx.dict.strs[i].clone());
                v.push(*ctx.rng.pick(&[b' ', b'\n', b'1', b'3', b'-']));
            }
            v
        }
        2 => { let a = doc(ctx, fam).bytes; let f2 = *ctx.rng.pick(&TEXT_FAMS); let b = doc(ctx, f2).bytes; let i = ctx.rng.below(a.len() + 1); let j = ctx.rng.below(b.len() + 1); let mut v = a[..i].to_vec(); v.extend_from_slice(&b[j..]); v }
        _ => doc(ctx, fam).bytes,
    };
    mutate(ctx, &mut v);
    (v, fam)
}
fn fmts_for(ctx: &mut Ctx, fam: Fam) -> Vec<Fmt> {
    let mut v = match fam {
        Fam::Xy => vec![Fmt::Xy, Fmt::Xyz], Fam::Xyz => vec![Fmt::Xyz, Fmt::Xy], Fam::Pts => vec![Fmt::Pts], Fam::Ptx => vec![Fmt::Ptx],
        Fam::Off => vec![Fmt::OffM, Fmt::OffP], Fam::Obj => vec![Fmt::ObjM, Fmt::ObjP], Fam::Gcode => vec![Fmt::Gcode],
        Fam::StlA => vec![Fmt::StlD(2), Fmt::StlU(0), Fmt::StlT(2)], Fam::StlB => vec![Fmt::StlD(2), Fmt::StlU(1), Fmt::StlT(1)],
        Fam::PlyA | Fam::PlyLe | Fam::PlyBe => vec![Fmt::PlyM, Fmt::PlyP, Fmt::PlyE], Fam::Psl => vec![Fmt::Psl], Fam::Las => vec![Fmt::Las],
    };
    v.push(*ctx.rng.pick(&ALL_FMTS));
    v
}
/// fixed allowance for reserved space plus a share per input byte
const MEM_BASE: usize = 192 << 20;

fn c01(ctx: &mut Ctx) -> R {
    let (v, fam) = hostile(ctx);
    ctx.fpb(&v);
    if ctx.want_desc { ctx.note(format!("{:?} {}", fam, show_bytes(&v))); }
    for f in fmts_for(ctx, fam) {
        let seen = RefCell::new(Seen::default());
        let before = alloc::live();
        alloc::reset_peak();
        let o = load(f, Src::new(&v, 0, false, None, 1, &seen));
        let peak = alloc::peak().saturating_sub(before);
        ctx.count("loads", 1);
        ctx.count(if o.err.is_some() { "rejected" } else { "accepted" }, 1);
        if !o.pts.is_empty() { ctx.nontrivial = true; ctx.count("with_data", 1); }
        ensure!(peak < MEM_BASE + 256 * v.len(), format!("memory {:?}", f), "{:?} used {} bytes of memory for a file of {} bytes: {}", f, peak, v.len(), show_bytes(&v));
        ensure!(o.pts.len() <= v.len() && o.faces.len() <= v.len(), format!("amount {:?}", f), "{:?} delivered {} points and {} faces from {} bytes", f, o.pts.len(), o.faces.len(), v.len());
        for x in &o.faces { ensure!(x.iter().all(|i| *i < o.pts.len()), format!("index {:?}", f), "{:?} delivered a face {:?} but only {} vertices", f, x, o.pts.len()); }
        let s = seen.borrow();
        ensure!(s.eof_hits <= 8, format!("polling {:?}", f), "{:?} read {} times behind the end", f, s.eof_hits);
        drop(s);
        if ctx.rng.chance(1, 3) {
            if let Some(w) = iterate(f, Cursor::new(&v[..]), v.len() + 1000) {
                ensure!(w.after_err == 0 && w.after_end == 0, format!("iter after error {:?}", f), "{:?} iterator delivered {} items after its error, {} after its end: {}", f, w.after_err, w.after_end, show_bytes(&v));
                let q = fold(f, &w);
                ctx.count("iterators", 1);
                // the mesh loaders additionally check the indices
                if !matches!(f, Fmt::OffM | Fmt::ObjM | Fmt::PlyM) {
                    ensure!(q.err == o.err && q.pts == o.pts && q.norms == o.norms, format!("iter differs {:?}", f), "{:?} iterator delivers {} but the loader {} file={}", f, q.brief(), o.brief(), show_bytes(&v));
                } else {
                    ensure!(o.pts.len() <= q.pts.len() && (o.err.is_some() || q.err.is_none()), format!("iter differs {:?}", f), "{:?} iterator delivers {} but the loader {} file={}", f, q.brief(), o.brief(), show_bytes(&v));
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07
fn c07(ctx: &mut Ctx) -> R {
    let (v, fam) = if ctx.rng.chance(1, 3) { hostile(ctx) } else {
        let fam = if ctx.rng.chance(2, 3) { *ctx.rng.pick(&TEXT_FAMS) } else { *ctx.rng.pick(&BIN_FAMS) };
        if !ctx.tiny && ctx.rng.chance(1, 4000) { ctx.count("huge_docs", 1); (doc_huge(ctx, fam).bytes, fam) } else { (doc(ctx, fam).bytes, fam) }
    };
    let fmts = fmts_for(ctx, fam);
    let f = fmts[ctx.rng.below(fmts.len())];
    let base = load(f, Cursor::new(&v[..]));
    ctx.fpb(&v);
    let chunk = *ctx.rng.pick(&[1usize, 1, 2, 3, 7, 16, 64, 4096, 8192, 65536, 0]);
    let intr = ctx.rng.bool();
    let seed = ctx.rng.u64();
    if ctx.want_desc { ctx.note(format!("{:?} chunks of up to {} interrupts {} {}", f, chunk, intr, show_bytes(&v))); }
    {
        let seen = RefCell::new(Seen::default());
        let got = load(f, Src::new(&v, chunk, intr, None, seed, &seen));
        ensure!(got == base, format!("chunks {:?}", fam), "{:?} delivers {} in small chunks but {} in one piece file={}", f, got.brief(), base.brief(), show_bytes(&v));
        let s = seen.borrow();
        ctx.count("chunked_loads", 1);
        ctx.count("chunks", s.chunks);
        ctx.count("interrupts", s.interrupts);
        if s.chunks > 2 { ctx.nontrivial = true; }
    }
    // a failing read, possibly right at the end
    for _ in 0..2 {
        let at = match ctx.rng.below(5) { 0 => v.len(), 1 => v.len().saturating_sub(1), 2 => { let l: Vec<usize> = (0..v.len()).filter(|i| v[*i] == b'\n').collect(); if l.is_empty() { 0 } else { *ctx.rng.pick(&l) + 1 } } _ => ctx.rng.below(v.len() + 1) };
        let seen = RefCell::new(Seen::default());
        let got = load(f, Src::new(&v, chunk, intr, Some(at), seed, &seen));
        let s = seen.borrow().clone();
        ctx.fpu(at as u64);
        if !s.fired {
            ensure!(got == base, format!("chunks {:?}", fam), "{:?} delivers {} with a later fault but {} without file={}", f, got.brief(), base.brief(), show_bytes(&v));
            ctx.count("fault_not_reached", 1);
            continue;
        }
        ctx.count("faults_fired", 1);
        ctx.count(&format!("fault_{:?}", fam), 1);
        ensure!(got.err.is_some(), format!("fault hidden {:?}", fam), "{:?}: reading failed at byte {} but loading reported success with {} (intact: {}) file={}", f, at, got.brief(), base.brief(), show_bytes(&v));
        ensure!(is_prefix(&got, &base, false), format!("fault prefix {:?}", fam), "{:?}: reading failed at byte {}: delivered {} but the intact file holds {} file={}", f, at, got.brief(), base.brief(), show_bytes(&v));
        if let Some(w) = { let seen = RefCell::new(Seen::default()); iterate(f, Src::new(&v, chunk, intr, Some(at), seed, &seen), v.len() + 1000) } {
            let q = fold(f, &w);
            ensure!(q.err.is_some() && w.after_err == 0 && w.after_end == 0, format!("fault iter {:?}", fam), "{:?} iterator: reading failed at byte {}: error {:?}, {} items after the error, {} after the end", f, at, q.err, w.after_err, w.after_end);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02 / C06
pub struct Scene { pub m: Msh, pub pts: Vec<Point3D>, pub faces: Vec<[usize; 3]>, pub p2: Vec<Point2D>, pub cols: Vec<Rgb> }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sv { Xy, Xyz, Stl, PlyA, PlyAC, PlyB32, PlyB64, PlyBC32, PlyBC64 }
pub const SAVERS: [Sv; 9] = [Sv::Xy, Sv::Xyz, Sv::Stl, Sv::PlyA, Sv::PlyAC, Sv::PlyB32, Sv::PlyB64, Sv::PlyBC32, Sv::PlyBC64];

fn scene(ctx: &mut Ctx) -> Scene {
    let huge = !ctx.tiny && ctx.rng.chance(1, 2500);
    let n = if huge { ctx.count("huge_scenes", 1); *ctx.rng.pick(&[255, 256, 257, 3000, 32767, 32768, 32769, 65535, 65536, 65537, 65538, 66000, 66000, 70000]) } else { let m = if ctx.rng.chance(1, 10) { 500 } else { 16 }; size(ctx, m) };
    let special = ctx.rng.bool();
    let dist = *ctx.rng.pick(&DISTS);
    let mut c = |ctx: &mut Ctx| if special { any_finite(&mut ctx.rng) } else { coord_special(ctx, dist) };
    let pts: Vec<Point3D> = (0..n).map(|_| Point3D { x: c(ctx), y: c(ctx), z: c(ctx) }).collect();
    let p2: Vec<Point2D> = (0..n).map(|_| Point2D { x: c(ctx), y: c(ctx) }).collect();
    let mut m = Msh::default();
    for p in &pts { m.add_vertex(p.clone()); }
    let mut faces = vec![];
    if n >= 3 {
        let nf = if huge && ctx.rng.bool() { n } else if ctx.rng.chance(1, 12) { size(ctx, 500) } else { ctx.rng.below(20) };
        for i in 0..nf + ctx.rng.below(2) {
            // the last vertices are used too
            let f = if i == nf { [n - 1, n - 2, n - 3] } else { [ctx.rng.below(n), ctx.rng.below(n), ctx.rng.below(n)] };
            if m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).is_ok() { faces.push(f); }
        }
    }
    let cols = (0..n).map(|_| { let x = ctx.rng.u64(); Rgb::new(x as u8, (x >> 8) as u8, (x >> 16) as u8) }).collect();
    Scene { m, pts, faces, p2, cols }
}
fn save<W: std::io::Write>(s: Sv, sc: &Scene, dc: &str, dp: &str, w: &mut W) -> std::result::Result<(), String> {
    let e = |x: PlyError| format!("{:?}", x);
    match s {
        Sv::Xy => save_xy(w, &sc.p2, dc, dp).map_err(|x| format!("{:?}", x)),
        Sv::Xyz => save_xyz(w, &sc.pts, dc, dp).map_err(|x| format!("{:?}", x)),
        Sv::Stl => save_stl_ascii(w, &sc.m).map_err(|x| format!("{:?}", x)),
        Sv::PlyA => save_ply_ascii(w, &sc.m).map_err(e),
        Sv::PlyAC => save_ply_ascii_colored(w, &sc.m, &sc.cols).map_err(e),
        Sv::PlyB32 => save_ply_binary(w, &sc.m, &Precision::P32).map_err(e),
        Sv::PlyB64 => save_ply_binary(w, &sc.m, &Precision::P64).map_err(e),
        Sv::PlyBC32 => save_ply_binary_colored(w, &sc.m, &Precision::P32, &sc.cols).map_err(e),
        Sv::PlyBC64 => save_ply_binary_colored(w, &sc.m, &Precision::P64, &sc.cols).map_err(e),
    }
}
fn fp_scene(ctx: &mut Ctx, sc: &Scene) {
    fp3(ctx, &sc.pts);
    fp2(ctx, &sc.p2);
    for f in &sc.faces { for x in f { ctx.fpu(*x as u64); } }
}
fn c02(ctx: &mut Ctx) -> R {
    let sc = scene(ctx);
    fp_scene(ctx, &sc);
    if ctx.want_desc { ctx.note(format!("points {} faces {:?}", show3(&sc.pts), sc.faces)); }
    if sc.pts.len() > 1 { ctx.nontrivial = true; }
    let del = *ctx.rng.pick(&[" ", ";", ",", "\t", "  ", ";;"]);
    let dp = *ctx.rng.pick(&["\n", "\n", "\r\n", " \n"]);
    ctx.fpb(del.as_bytes());
    let k: Vec<[u64; 3]> = sc.pts.iter().map(|p| k3(p)).collect();
    for s in SAVERS {
        let mut buf = vec![];
        let r = save(s, &sc, del, dp, &mut buf);
        ensure!(r.is_ok(), format!("save {:?}", s), "{:?} failed: {:?}", s, r);
        ctx.count("saved", 1);
        ctx.count("bytes", buf.len() as u64);
        let rd = |f: Fmt| load(f, Cursor::new(&buf[..]));
        let f32p = |p: &Point3D| [(p.x as f32) as f64, (p.y as f32) as f64, (p.z as f32) as f64];
        match s {
            Sv::Xy => {
                let o = rd(Fmt::Xy);
                let w: Vec<[u64; 3]> = sc.p2.iter().map(|p| [p.x.to_bits(), p.y.to_bits(), 0]).collect();
                ensure!(o.err.is_none() && o.pts == w, "roundtrip xy", "delim {:?} {:?}: wrote {} read {}", del, dp, show2(&sc.p2), o.brief());
            }
            Sv::Xyz => {
                let o = rd(Fmt::Xyz);
                ensure!(o.err.is_none() && o.pts == k, "roundtrip xyz", "delim {:?} {:?}: wrote {} read {}", del, dp, show3(&sc.pts), o.brief());
            }
            Sv::Stl => {
                let o = rd(*ctx.rng.pick(&[Fmt::StlD(0), Fmt::StlD(2)]));
                let w: Vec<[u64; 3]> = sc.faces.iter().flat_map(|f| f.iter().map(|i| k[*i]).collect::<Vec<_>>()).collect();
                ensure!(o.err.is_none() && o.pts == w, "roundtrip stl", "wrote {} {:?} read {}", show3(&sc.pts), sc.faces, o.brief());
                ensure!(o.faces.len() == sc.faces.len() && o.norms.len() == sc.faces.len(), "roundtrip stl counts", "{} faces, read {} faces {} normals", sc.faces.len(), o.faces.len(), o.norms.len());
                for (i, n) in o.norms.iter().enumerate() {
                    let n = [f64::from_bits(n[0]), f64::from_bits(n[1]), f64::from_bits(n[2])];
                    let [a, b, c] = [&sc.pts[sc.faces[i][0]], &sc.pts[sc.faces[i][1]], &sc.pts[sc.faces[i][2]]];
                    let (u, v) = ([b.x - a.x, b.y - a.y, b.z - a.z], [c.x - b.x, c.y - b.y, c.z - b.z]);
                    let cr = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]];
                    let l = (cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]).sqrt();
                    let mag = u.iter().chain(v.iter()).fold(0f64, |m, x| m.max(x.abs()));
                    // only where the normal is numerically well determined
                    if l.is_finite() && mag > 1e-50 && mag < 1e50 && l > 1e-9 * mag * mag {
                        ensure!((0..3).all(|q| (n[q] - cr[q] / l).abs() < 1e-6), "stl normal", "face {} {:?}: normal {:?}, expected {:?}", i, sc.faces[i], n, cr);
                        ctx.count("normals", 1);
                    }
                }
                let o = rd(Fmt::StlU(2));
                let mut uv = std::collections::HashMap::new();
                let mut uf = vec![];
                for f in &sc.faces {
                    let mut id = [0; 3];
                    for q in 0..3 {
                        let p = &sc.pts[f[q]];
                        // + 0.0: the zeros are equal
                        let p = [(p.x + 0.0).to_bits(), (p.y + 0.0).to_bits(), (p.z + 0.0).to_bits()];
                        let next = uv.len();
                        id[q] = *uv.entry(p).or_insert(next);
                    }
                    if id[0] != id[1] && id[0] != id[2] && id[1] != id[2] { uf.push(id); }
                }
                ensure!(o.err.is_none() && o.pts.len() == uv.len() && o.faces == uf, "roundtrip stl unique", "wrote {} {:?} read {} expected {} unique vertices, faces {:?}", show3(&sc.pts), sc.faces, o.brief(), uv.len(), uf);
            }
            _ => {
                let want: Vec<[u64; 3]> = match s {
                    Sv::PlyB32 | Sv::PlyBC32 => sc.pts.iter().map(|p| { let q = f32p(p); [q[0].to_bits(), q[1].to_bits(), q[2].to_bits()] }).collect(),
                    _ => k.clone(),
                };
                let f = *ctx.rng.pick(&[Fmt::PlyM, Fmt::PlyE, Fmt::PlyM, Fmt::PlyP]);
                let o = rd(f);
                ensure!(o.err.is_none() && o.pts == want && (f == Fmt::PlyP || o.faces == sc.faces), format!("roundtrip {:?}", s), "{:?} {:?}: wrote {} {:?} read {}", s, f, show3(&sc.pts), sc.faces, o.brief());
                // colors: found behind the coordinates of each vertex
                let hdr = buf.windows(11).position(|w| w == b"end_header\n").map(|i| i + 11).unwrap_or(0);
                ensure!(hdr > 0, format!("header {:?}", s), "no header end");
                match s {
                    Sv::PlyAC => {
                        let t = String::from_utf8_lossy(&buf[hdr..]).to_string();
                        for (i, l) in t.lines().take(sc.pts.len()).enumerate() {
                            let w: Vec<&str> = l.split_whitespace().collect();
                            let c = &sc.cols[i];
                            ensure!(w.len() == 6 && w[3..] == [c.r.to_string(), c.g.to_string(), c.b.to_string()], "colors ascii", "vertex {} color {:?} written as {:?}", i, c, l);
                            ctx.count("colors", 1);
                        }
                    }
                    Sv::PlyBC32 | Sv::PlyBC64 => {
                        let fs = if s == Sv::PlyBC32 { 4 } else { 8 };
                        let rec = 3 * fs + 3;
                        ensure!(buf.len() == hdr + rec * sc.pts.len() + 13 * sc.faces.len(), "binary size", "{} bytes", buf.len());
                        for (i, c) in sc.cols.iter().enumerate() {
                            let a = hdr + i * rec + 3 * fs;
                            ensure!(buf[a..a + 3] == [c.r, c.g, c.b], "colors binary", "vertex {} color {:?} written as {:?}", i, c, &buf[a..a + 3]);
                            ctx.count("colors", 1);
                        }
                        let h = String::from_utf8_lossy(&buf[..hdr]).to_string();
                        ensure!(h.contains("property uchar red\nproperty uchar green\nproperty uchar blue\n"), "color header", "{}", h);
                    }
                    _ => {}
                }
            }
        }
    }
    // a wrong number of colors is refused without writing anything
    if ctx.rng.chance(1, 4) {
        let mut cols = sc.cols.clone();
        if cols.is_empty() || ctx.rng.bool() { cols.push(Rgb::new(1, 2, 3)) } else { cols.pop(); }
        let mut w = vec![];
        let a = save_ply_ascii_colored(&mut w, &sc.m, &cols);
        ensure!(a.is_err() && w.is_empty(), "colors count", "ascii: {:?}, {} bytes written", a, w.len());
        let a = save_ply_binary_colored(&mut w, &sc.m, &Precision::P32, &cols);
        ensure!(a.is_err() && w.is_empty(), "colors count", "binary: {:?}, {} bytes written", a, w.len());
        ctx.count("wrong_colors", 1);
    }
    Ok(())
}

fn c06(ctx: &mut Ctx) -> R {
    let sc = scene(ctx);
    fp_scene(ctx, &sc);
    let s = *ctx.rng.pick(&SAVERS);
    if ctx.want_desc { ctx.note(format!("{:?} points {} faces {:?}", s, show3(&sc.pts), sc.faces)); }
    let mut clean = vec![];
    let r = save(s, &sc, " ", "\n", &mut clean);
    ensure!(r.is_ok(), format!("save {:?}", s), "{:?} failed: {:?}", s, r);
    if clean.len() > 2 { ctx.nontrivial = true; }
    let chunk = *ctx.rng.pick(&[1usize, 2, 3, 5, 17, 100, 4096, 8191, 65536]);
    let intr = ctx.rng.bool();
    let mut w = Snk::new(chunk, intr, None, ctx.rng.u64());
    let r = save(s, &sc, " ", "\n", &mut w);
    ctx.count("short_writes", w.n_short);
    ctx.count("interrupts", w.n_intr);
    ensure!(r.is_ok(), format!("short write refused {:?}", s), "{:?} into a slow writer failed: {:?}", s, r);
    ensure!(w.out == clean, format!("short write lost {:?}", s), "{:?} into a writer taking at most {} bytes per call wrote {} bytes instead of {}", s, chunk, w.out.len(), clean.len());
    for _ in 0..3 {
        if clean.is_empty() { break; }
        let at = match ctx.rng.below(4) { 0 => clean.len() - 1, 1 => ctx.rng.below(clean.len().min(200)), _ => ctx.rng.below(clean.len()) };
        let kind = ctx.rng.below(3) as u8;
        ctx.fpu(at as u64 * 3 + kind as u64);
        let mut w = Snk::new(if ctx.rng.bool() { chunk } else { 0 }, intr, Some((at, kind)), ctx.rng.u64());
        let r = save(s, &sc, " ", "\n", &mut w);
        ensure!(w.fired, "HARNESS fault not reached", "HARNESS fault at {} of {} not reached", at, clean.len());
        ctx.count("faults_fired", 1);
        ctx.count(&format!("fault_{:?}", s), 1);
        ensure!(r.is_err(), format!("write fault hidden {:?}", s), "{:?}: writing failed after {} of {} bytes (kind {}) but saving reported success", s, at, clean.len(), kind);
        ensure!(clean.starts_with(&w.out), format!("write fault data {:?}", s), "{:?}: the {} bytes accepted before the fault differ from a clean run", s, w.out.len());
        ensure!(w.calls_after_fire == 0, format!("write after fault {:?}", s), "{:?}: {} writes after the failing one", s, w.calls_after_fire);
    }
    Ok(())
}

// ---------------------------------------------------------------- probes
fn ok_pts(f: Fmt, b: &[u8], want: &[[f64; 3]]) -> R {
    let o = load(f, Cursor::new(b));
    let w: Vec<[u64; 3]> = want.iter().map(|p| [p[0].to_bits(), p[1].to_bits(), p[2].to_bits()]).collect();
    ensure!(o.err.is_none() && o.pts == w, "content", "{:?} of {} delivers {}", f, show_bytes(b), o.brief());
    Ok(())
}
fn rejects(f: Fmt, b: &[u8]) -> R {
    let o = load(f, Cursor::new(b));
    ensure!(o.err.is_some(), "accepted", "{:?} of {} delivers {}", f, show_bytes(b), o.brief());
    Ok(())
}
fn p_lastbyte() -> R { ok_pts(Fmt::Xyz, b"0 0 0\n1 2 34", &[[0.0; 3], [1.0, 2.0, 34.0]]) }
fn p_gcode90() -> R { ok_pts(Fmt::Gcode, b"G91\nG1 X1\nG1 X1\nG90\nG1 X1\n", &[[1.0, 0.0, 0.0], [2.0, 0.0, 0.0], [1.0, 0.0, 0.0]]) }
fn p_plytypes() -> R { ok_pts(Fmt::PlyP, &{ let mut v = b"ply\nformat binary_little_endian 1.0\nelement vertex 1\nproperty double z\nproperty float x\nproperty float y\nend_header\n".to_vec(); v.extend_from_slice(&3f64.to_le_bytes()); v.extend_from_slice(&1f32.to_le_bytes()); v.extend_from_slice(&2f32.to_le_bytes()); v }, &[[1.0, 2.0, 3.0]]) }
fn p_plybefore() -> R {
    let b = b"ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 1\nproperty int flags\nproperty list uchar int vertex_indices\nend_header\n0 0 0\n1 0 0\n0 1 0\n9 3 0 1 2\n";
    let o = load(Fmt::PlyM, Cursor::new(&b[..]));
    ensure!(o.err.is_none() && o.faces == vec![[0, 1, 2]], "content", "{}", o.brief());
    Ok(())
}
fn p_ptx() -> R { ok_pts(Fmt::Ptx, b"1\n1\n1 2 3\n0 1 0\n-1 0 0\n0 0 1\n0 1 0 0\n-1 0 0 0\n0 0 1 0\n1 2 3 1\n10 20 30 0.5\n", &[[1.0 - 20.0, 2.0 + 10.0, 33.0]]) }
fn p_psl() -> R {
    let mut b = vec![0u8; 4];
    b.extend_from_slice(&1i32.to_le_bytes()); b.extend(vec![0u8; 128]); b.extend_from_slice(&1i32.to_le_bytes()); b.extend(vec![0u8; 372]);
    b.extend_from_slice(&1i32.to_le_bytes()); b.extend(vec![0u8; 60]);
    b.extend_from_slice(&2i32.to_le_bytes()); b.extend(vec![0u8; 60]);
    for x in [1f32, 2.0, 3.0, 4.0, 5.0, 6.0] { b.extend_from_slice(&x.to_le_bytes()); }
    ok_pts(Fmt::Psl, &b, &[[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]])
}
fn p_las_small() -> R {
    let mut h = vec![0u8; 227];
    h[..4].copy_from_slice(b"LASF"); h[24] = 1; h[25] = 2; h[94] = 227; h[96] = 227; h[105] = 20; h[107] = 1;
    for i in 0..3 { h[131 + 8 * i..139 + 8 * i].copy_from_slice(&1f64.to_le_bytes()); }
    for x in [1i32, 2, 3] { h.extend_from_slice(&x.to_le_bytes()); }
    h.extend(vec![0u8; 8]);
    ok_pts(Fmt::Las, &h, &[[1.0, 2.0, 3.0]])?;
    h[0] = b'X';
    rejects(Fmt::Las, &h)
}
fn p_las_rec() -> R { let mut h = vec![0u8; 400]; h[..4].copy_from_slice(b"LASF"); h[24] = 1; h[25] = 2; h[105] = 4; h[107] = 1; rejects(Fmt::Las, &h) }
fn p_obj0() -> R { rejects(Fmt::ObjM, b"v 0 0 0\nv 1 0 0\nv 0 1 0\nf 0 1 2\n") }
fn p_pts_trunc() -> R { rejects(Fmt::Pts, b"3\n1 2 3\n4 5 6\n")?; rejects(Fmt::OffM, b"OFF\n3 1 0\n0 0 0\n1 0 0\n0 1 0\n")?; rejects(Fmt::OffP, b"OFF\n3 1 0\n0 0 0\n") }
fn p_ply_trunc() -> R {
    let h = "ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 1\nproperty list uchar int vertex_indices\nend_header\n0 0 0\n1 0 0\n";
    rejects(Fmt::PlyP, h.as_bytes())?;
    rejects(Fmt::PlyM, (h.to_string() + "0 1 0\n").as_bytes())
}
fn p_stl_trunc() -> R { rejects(Fmt::StlD(0), b"solid a\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\n") }
fn p_reserve() -> R {
    for (f, b) in [(Fmt::Pts, &b"18446744073709551615\n1 2 3\n"[..]), (Fmt::OffM, b"OFF\n6148914691236517206 6148914691236517206 0\n0 0 0\n"), (Fmt::Ptx, b"4294967296\n4294967296\n0\n0\n0\n0\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n"), (Fmt::PlyP, b"ply\nformat ascii 1.0\nelement vertex 18446744073709551615\nproperty float x\nproperty float y\nproperty float z\nend_header\n0 0 0\n")] { rejects(f, b)?; }
    Ok(())
}
fn p_plydup() -> R { rejects(Fmt::PlyP, b"ply\nformat ascii 1.0\nelement vertex 1\nproperty float x\nproperty float y\nproperty float z\nproperty float x\nend_header\n0 0 0 0\n") }
fn p_ioerr() -> R {
    let b = b"1 2 3\n4 5 6\n7 8 9\n";
    let seen = RefCell::new(Seen::default());
    let o = load(Fmt::Xyz, Src::new(b, 0, false, Some(12), 1, &seen));
    ensure!(o.err.is_some(), "hidden", "{}", o.brief());
    Ok(())
}
fn p_shortwrite() -> R {
    let mut m = Msh::default();
    m.add_vertex(Point3D::new(1.0, 2.0, 3.0));
    let sc = Scene { m, pts: vec![], faces: vec![], p2: vec![], cols: vec![] };
    let mut w = Snk::new(1, false, None, 1);
    let mut c = vec![];
    let _ = save(Sv::PlyB64, &sc, " ", "\n", &mut c);
    let r = save(Sv::PlyB64, &sc, " ", "\n", &mut w);
    ensure!(r.is_ok() && w.out == c, "lost", "{} of {} bytes", w.out.len(), c.len());
    Ok(())
}
fn p_stl_degenerate() -> R {
    let mut m = Msh::default();
    m.add_face(Point3D::new(0.0, 0.0, 0.0), Point3D::new(0.0, 0.0, 0.0), Point3D::new(1.0, 0.0, 0.0));
    let mut w = vec![];
    ensure!(save_stl_ascii(&mut w, &m).is_ok(), "save", "failed");
    Ok(())
}
fn p_iter_after() -> R {
    let b = b"2\n1\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\nx 1 2\n1 2 3\n";
    let w = iterate(Fmt::Ptx, Cursor::new(&b[..]), 100).unwrap();
    ensure!(w.after_err == 0, "ptx continued", "{:?}", w.evs);
    let h = "ply\nformat ascii 1.0\nelement vertex 1\nproperty float x\nproperty float y\nproperty float z\nelement face 1\nproperty list uchar int vertex_indices\nend_header\nx 0 0\n3 0 0 0\n";
    let w = iterate(Fmt::PlyM, Cursor::new(h.as_bytes()), 100).unwrap();
    ensure!(w.after_err == 0, "ply continued", "{:?}", w.evs);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "Every loader ends with Ok or Err on every byte sequence: no panic, no abort, no runaway memory or reading, no face index beyond the vertices delivered, and its incremental iterator agrees with it and stops at its end.", quick: 1_500_000, thorough: 30_000_000, run: c01, probes: &[("huge-counts", p_reserve), ("obj-zero", p_obj0), ("las-reclen", p_las_rec), ("ply-dup-axis", p_plydup)], must_see: &["accepted", "rejected", "with_data", "iterators"], assumptions: &["files up to 60 kB", "loading into rust-3d's own containers"], level: "exploration" },
        Prop { id: "C02", rule: "What a saver writes, the loader of that format reads back exactly: coordinates bit for bit (rounded to f32 for the 32 bit ply), faces, order, colors.", quick: 400_000, thorough: 8_000_000, run: c02, probes: &[("stl-degenerate", p_stl_degenerate)], must_see: &["saved", "colors", "normals", "wrong_colors"], assumptions: &["finite coordinates", "coordinate delimiters made of one of the supported delimiter characters"], level: "exploration" },
        Prop { id: "C03", rule: "A valid text file yields exactly the points and faces it holds, in order, from loader and iterator alike, whatever its line ends, spacing, number notation, comments and missing final line break.", quick: 700_000, thorough: 20_000_000, run: c03, probes: &[("last-byte", p_lastbyte), ("gcode-bare-g90", p_gcode90), ("ptx-transposed", p_ptx), ("ply-face-before", p_plybefore)], must_see: &["docs_Xy", "docs_Xyz", "docs_Pts", "docs_Ptx", "docs_Off", "docs_Obj", "docs_Gcode", "docs_StlA", "docs_PlyA", "iterators"], assumptions: &["ptx transformations with exactly representable results"], level: "exploration" },
        Prop { id: "C04", rule: "A valid binary file (stl, ply of either byte order and any property layout, las, psl) yields exactly the points and faces it holds, in order, from loader and iterator alike.", quick: 1_500_000, thorough: 40_000_000, run: c04, probes: &[("psl-all-points", p_psl), ("las-small", p_las_small), ("ply-axis-types", p_plytypes)], must_see: &["docs_Psl", "docs_StlB", "docs_PlyLe", "docs_PlyBe", "docs_Las", "iterators"], assumptions: &["las: x y z at the start of a point record"], level: "exploration" },
        Prop { id: "C05", rule: "A truncated or damaged file is reported as an error naming the offending line, what was delivered before is a prefix of the truth, and iterators end after their first error.", quick: 1_500_000, thorough: 40_000_000, run: c05, probes: &[("missing-records", p_pts_trunc), ("ply-missing", p_ply_trunc), ("stl-missing", p_stl_trunc), ("after-error", p_iter_after)], must_see: &["rejections_checked", "truncated_binary", "truncated_counted_text", "truncated_facet", "truncated_to_header", "truncated_open", "line_numbers_checked", "bad_headers", "damaged_Coord", "damaged_Index", "damaged_Count", "damaged_FaceN", "damaged_Matrix", "damaged_Kw", "damaged_lines", "missing_words", "counts_too_large", "negative_ids", "iterators_stopped"], assumptions: &[], level: "exploration" },
        Prop { id: "C06", rule: "Savers write the same bytes through a writer that accepts only part of each write, and report every failing write.", quick: 700_000, thorough: 15_000_000, run: c06, probes: &[("short-write", p_shortwrite)], must_see: &["short_writes", "interrupts", "faults_fired"], assumptions: &[], level: "exploration" },
        Prop { id: "C07", rule: "The outcome of loading does not depend on how the reader splits its data or on interruptions, and a failing read is always reported with only intact data delivered.", quick: 600_000, thorough: 12_000_000, run: c07, probes: &[("read-error", p_ioerr)], must_see: &["chunked_loads", "chunks", "interrupts", "faults_fired"], assumptions: &[], level: "exploration" },
    ]
}
