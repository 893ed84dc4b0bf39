From 6b720df7bad98c7b7222dad5b1b46bf7537ca724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 01/62] fix: KdTree::knearest kept wrong neighbours while the
 result was unsorted

---
 src/kd_tree.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/kd_tree.rs b/src/kd_tree.rs
index 967d28d..bfd5868 100644
--- a/src/kd_tree.rs
+++ b/src/kd_tree.rs
@@ -224,6 +224,7 @@ where
         if pc.len() < n || sqr_dist_3d(search, &self.val) < sqr_dist_3d(search, &pc[&pc.len() - 1])
         {
             pc.push(self.val.clone());
+            Self::sort_and_limit(pc, search, n);
         }
 
         let comp = dimension_compare(search, &self.val, self.dimension);
@@ -407,18 +408,11 @@ where
         PSearch: Is3D,
         PFind: Is3D + Clone,
     {
-        if pc.len() > max_size {
-            pc.sort_by(|a, b| {
-                sqr_dist_3d(search, a)
-                    .partial_cmp(&sqr_dist_3d(search, b))
-                    .unwrap_or(Ordering::Equal)
-            });
-            let mut result: Vec<PFind>;
-            result = Vec::new();
-            for i in pc.iter().take(max_size) {
-                result.push(i.clone());
-            }
-            *pc = result;
-        }
+        pc.sort_by(|a, b| {
+            sqr_dist_3d(search, a)
+                .partial_cmp(&sqr_dist_3d(search, b))
+                .unwrap_or(Ordering::Equal)
+        });
+        pc.truncate(max_size);
     }
 }
-- 
2.43.0


From 5555a87a70c0828629c6a7f1be60d227e12aef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 02/62] fix: Sphere and FilterSphere reported y as their z
 position

---
 src/filter_sphere.rs | 2 +-
 src/sphere.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_sphere.rs b/src/filter_sphere.rs
index c994523..4510843 100644
--- a/src/filter_sphere.rs
+++ b/src/filter_sphere.rs
@@ -62,7 +62,7 @@ impl Is3D for FilterSphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.sphere.y()
+        self.sphere.z()
     }
 }
 
diff --git a/src/sphere.rs b/src/sphere.rs
index 7db25d6..834976f 100644
--- a/src/sphere.rs
+++ b/src/sphere.rs
@@ -73,7 +73,7 @@ impl Is3D for Sphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.center.y()
+        self.center.z()
     }
 }
 
-- 
2.43.0


From f9d10c6e3999c9843045409d97eb2053577e4b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 03/62] fix: line/box intersection ignored axes when the line
 lay within the plane of a side

---
 src/functions.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 3e04332..1573438 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -445,23 +445,23 @@ pub fn intersection(l: &Line3D, b: &BoundingBox3D) -> Option<Point3D> {
     let min = b.min_p();
     let max = b.max_p();
 
-    let tx1 = (min.x() - l.anchor.x()) * inv_dir[0];
-    let tx2 = (max.x() - l.anchor.x()) * inv_dir[0];
-
-    let mut tmin = min64(tx1, tx2);
-    let mut tmax = max64(tx1, tx2);
-
-    let ty1 = (min.y() - l.anchor.y()) * inv_dir[1];
-    let ty2 = (max.y() - l.anchor.y()) * inv_dir[1];
-
-    tmin = max64(tmin, min64(ty1, ty2));
-    tmax = min64(tmax, max64(ty1, ty2));
+    // a line within one of the planes of a side ( 0 * inf => NaN ) isn't restricted by this side
+    let slab = |min: f64, max: f64, anchor: f64, inv: f64| {
+        let t1 = (min - anchor) * inv;
+        let t2 = (max - anchor) * inv;
+        if t1.is_nan() || t2.is_nan() {
+            (-f64::INFINITY, f64::INFINITY)
+        } else {
+            (min64(t1, t2), max64(t1, t2))
+        }
+    };
 
-    let tz1 = (min.z() - l.anchor.z()) * inv_dir[2];
-    let tz2 = (max.z() - l.anchor.z()) * inv_dir[2];
+    let (tx1, tx2) = slab(min.x(), max.x(), l.anchor.x(), inv_dir[0]);
+    let (ty1, ty2) = slab(min.y(), max.y(), l.anchor.y(), inv_dir[1]);
+    let (tz1, tz2) = slab(min.z(), max.z(), l.anchor.z(), inv_dir[2]);
 
-    tmin = max64(tmin, min64(tz1, tz2));
-    tmax = min64(tmax, max64(tz1, tz2));
+    let tmin = max64(max64(tx1, ty1), tz1);
+    let tmax = min64(min64(tx2, ty2), tz2);
 
     if tmax >= tmin && tmax >= 0.0 {
         Some(&l.anchor + &l.dir * tmin)
-- 
2.43.0


From 82836e56ea0115ac8330c7ab08dad776d7d0409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 04/62] fix: OcTree lost points on box and cell boundaries and
 overflowed its depth

---
 src/oc_tree.rs | 55 ++++++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/src/oc_tree.rs b/src/oc_tree.rs
index 5ce694e..e8f3b51 100644
--- a/src/oc_tree.rs
+++ b/src/oc_tree.rs
@@ -214,33 +214,33 @@ where
         let bbnnn = Self::calc_sub_min_max(Direction::NNN, bb)?;
 
         for p in pc {
-            if bbppp.contains(&p) {
+            if Self::is_within(&bbppp, &p) {
                 pcppp.push(p);
-            } else if bbppn.contains(&p) {
+            } else if Self::is_within(&bbppn, &p) {
                 pcppn.push(p);
-            } else if bbpnp.contains(&p) {
+            } else if Self::is_within(&bbpnp, &p) {
                 pcpnp.push(p);
-            } else if bbpnn.contains(&p) {
+            } else if Self::is_within(&bbpnn, &p) {
                 pcpnn.push(p);
-            } else if bbnpp.contains(&p) {
+            } else if Self::is_within(&bbnpp, &p) {
                 pcnpp.push(p);
-            } else if bbnpn.contains(&p) {
+            } else if Self::is_within(&bbnpn, &p) {
                 pcnpn.push(p);
-            } else if bbnnp.contains(&p) {
+            } else if Self::is_within(&bbnnp, &p) {
                 pcnnp.push(p);
-            } else if bbnnn.contains(&p) {
+            } else if Self::is_within(&bbnnn, &p) {
                 pcnnn.push(p);
             }
         }
 
-        let ppp = Self::build_subnode(pcppp, &bbppp);
-        let ppn = Self::build_subnode(pcppn, &bbppn);
-        let pnp = Self::build_subnode(pcpnp, &bbpnp);
-        let pnn = Self::build_subnode(pcpnn, &bbpnn);
-        let npp = Self::build_subnode(pcnpp, &bbnpp);
-        let npn = Self::build_subnode(pcnpn, &bbnpn);
-        let nnp = Self::build_subnode(pcnnp, &bbnnp);
-        let nnn = Self::build_subnode(pcnnn, &bbnnn);
+        let ppp = Self::build_subnode(pcppp, &bbppp)?;
+        let ppn = Self::build_subnode(pcppn, &bbppn)?;
+        let pnp = Self::build_subnode(pcpnp, &bbpnp)?;
+        let pnn = Self::build_subnode(pcpnn, &bbpnn)?;
+        let npp = Self::build_subnode(pcnpp, &bbnpp)?;
+        let npn = Self::build_subnode(pcnpn, &bbnpn)?;
+        let nnp = Self::build_subnode(pcnnp, &bbnnp)?;
+        let nnn = Self::build_subnode(pcnnn, &bbnnn)?;
 
         let result: Internal<P> = Internal {
             ppp,
@@ -294,15 +294,22 @@ where
         }
     }
     /// Creates a child node
-    fn build_subnode(pc: Vec<P>, bb: &BoundingBox3D) -> Option<Box<OcNode<P>>> {
+    fn build_subnode(pc: Vec<P>, bb: &BoundingBox3D) -> Result<Option<Box<OcNode<P>>>> {
         match pc.len() {
-            0 => None,
-            _ => match OcNode::new(bb, pc) {
-                Err(_) => None,
-                Ok(x) => Some(Box::new(x)),
-            },
+            0 => Ok(None),
+            _ => Ok(Some(Box::new(OcNode::new(bb, pc)?))),
         }
     }
+    /// Tests whether a position is within the box or on its boundary
+    fn is_within(bb: &BoundingBox3D, p: &P) -> bool {
+        let (min, max) = (bb.min_p(), bb.max_p());
+        p.x() >= min.x()
+            && p.x() <= max.x()
+            && p.y() >= min.y()
+            && p.y() <= max.y()
+            && p.z() >= min.z()
+            && p.z() <= max.z()
+    }
 }
 
 impl<P> OcNode<P>
@@ -353,14 +360,14 @@ where
     ) {
         if only_collect_centers {
             let mut sub_pc = PointCloud3D::new();
-            n.collect(depth + 1, maxdepth, &mut sub_pc);
+            n.collect(depth.saturating_add(1), maxdepth, &mut sub_pc);
             if let Some(c) = sub_pc.center_of_gravity() {
                 let mut p = P::default();
                 p.from(&c);
                 pc.push(p);
             }
         } else {
-            n.collect(depth + 1, maxdepth, pc);
+            n.collect(depth.saturating_add(1), maxdepth, pc);
         }
     }
 }
-- 
2.43.0


From 2d91cefa1f8d189a2f0d1e16bf756cdb9c879dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 05/62] fix: 0.0 and -0.0 are equal but hashed differently

---
 src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 22db621..070c7ff 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -73,7 +73,8 @@ pub fn hash_f64<H>(x: f64, state: &mut H)
 where
     H: Hasher,
 {
-    x.to_bits().hash(state);
+    // 0.0 and -0.0 are equal and must therefore have the same hash
+    (x + 0.0).to_bits().hash(state);
 }
 
 /// Returns a container with duplicates removed and indices representing the original order
-- 
2.43.0


From 225e17da523df8d3ea5e8f34153804e5a94d10ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 06/62] fix: last character of a file without final line break
 was dropped

---
 src/io/utils.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/io/utils.rs b/src/io/utils.rs
index f5d116b..6ac621a 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -99,11 +99,10 @@ where
         return Err(FetchLineError);
     }
 
-    // We must drop the '\n' we read_until for sure
-    // And might also have to drop additional whitespace
-    let mut ignore_end = 1;
-    for i in 1..line_buffer.len() {
-        if (line_buffer[line_buffer.len() - i - 1] as char).is_whitespace() {
+    // Drop the '\n' (the last line of a file might not have one) and any other trailing whitespace
+    let mut ignore_end = 0;
+    for byte in line_buffer.iter().rev() {
+        if (*byte as char).is_whitespace() {
             ignore_end += 1;
         } else {
             break;
-- 
2.43.0


From 9c4e01eb70bb66c867a10963a86cb267a6f8fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 07/62] fix: read errors were treated as the end of text based
 files

---
 src/io/gcode.rs                  | 10 +++++++++-
 src/io/obj.rs                    | 20 +++++++++++++++++--
 src/io/off.rs                    | 20 +++++++++++++++++--
 src/io/ply/header.rs             |  5 ++++-
 src/io/ply/iterators_internal.rs | 18 +++++++++++++++--
 src/io/pts.rs                    | 10 +++++++++-
 src/io/ptx.rs                    | 26 ++++++++++++++++---------
 src/io/stl.rs                    |  7 +++++--
 src/io/utils.rs                  | 30 +++++++++++++++++++++++------
 src/io/xy.rs                     | 33 +++++++++++++++++++-------------
 src/io/xyz.rs                    | 33 +++++++++++++++++++-------------
 11 files changed, 160 insertions(+), 52 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index e4fc1f1..d82ae80 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -85,7 +85,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
+                Ok(Some(line)) => line,
+                Ok(None) => break,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(e.into()).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.len() >= 4 && line[0] == b'G' {
diff --git a/src/io/obj.rs b/src/io/obj.rs
index af7ab3b..778f3e6 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -75,7 +75,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
+                Ok(Some(line)) => line,
+                Ok(None) => break,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(e.into()).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.starts_with(b"v ") {
@@ -141,7 +149,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
+                Ok(Some(line)) => line,
+                Ok(None) => break,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(e.into()).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.starts_with(b"v ") {
diff --git a/src/io/off.rs b/src/io/off.rs
index 1b506af..f07b1ec 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -82,7 +82,15 @@ where
             return None;
         }
 
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
+                Ok(Some(line)) => line,
+                Ok(None) => break,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(e.into()).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if !self.off_seen && line.starts_with(b"OFF") {
@@ -235,7 +243,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
+                Ok(Some(line)) => line,
+                Ok(None) => break,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(e.into()).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if !self.off_seen && line.starts_with(b"OFF") {
diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 08fbd6b..f4b7bcf 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -64,7 +64,10 @@ where
     let mut face_before = BytesWords::default();
     let mut face_after = BytesWords::default();
 
-    while let Ok(line) = fetch_line(read, line_buffer) {
+    while let Some(line) = fetch_line_opt(read, line_buffer)
+        .map_err(|e| e.into())
+        .index(*i_line)?
+    {
         *i_line += 1;
 
         if line.starts_with(b"comment") {
diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 82ab84e..382b1fb 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -379,7 +379,14 @@ where
         }
         if self.current < self.header.vertex.count {
             self.current += 1;
-            while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+            let opt_line = match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
+                Ok(opt_line) => opt_line,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(e.into()).index(self.i_line));
+                }
+            };
+            if let Some(line) = opt_line {
                 self.i_line += 1;
                 return Some(
                     Self::fetch_one(&self.header, line)
@@ -451,7 +458,14 @@ where
         }
         if self.current < self.header.face.count {
             self.current += 1;
-            while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+            let opt_line = match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
+                Ok(opt_line) => opt_line,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(e.into()).index(self.i_line));
+                }
+            };
+            if let Some(line) = opt_line {
                 self.i_line += 1;
                 return Some(
                     collect_index_line(&line)
diff --git a/src/io/pts.rs b/src/io/pts.rs
index 1bec397..e91c84d 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -101,7 +101,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
+                Ok(Some(line)) => line,
+                Ok(None) => break,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(e.into()).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.is_empty() {
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index e342459..2eb0c2c 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -173,14 +173,19 @@ where
             return None;
         }
         if self.n_points_to_fetch == 0 {
-            let first_line = fetch_line(&mut self.read, &mut self.line_buffer);
-            if first_line.is_err() {
-                self.is_done = true;
-                return None;
-            }
+            let first_line = match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
+                Ok(Some(line)) => line,
+                Ok(None) => {
+                    self.is_done = true;
+                    return None;
+                }
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(e.into()).index(self.i_line));
+                }
+            };
             self.i_line += 1;
-            // unwrap safe, is_err() checked above
-            match from_ascii(first_line.as_ref().unwrap())
+            match from_ascii(first_line)
                 .ok_or(PtxError::Columns)
                 .index(self.i_line)
                 .and_then(|columns| self.fetch_header(columns))
@@ -298,8 +303,11 @@ impl From<ioError> for PtxError {
 }
 
 impl From<FetchLineError> for PtxError {
-    fn from(_error: FetchLineError) -> Self {
-        PtxError::LoadFileEndReached
+    fn from(error: FetchLineError) -> Self {
+        match error {
+            FetchLineError::EndReached => PtxError::LoadFileEndReached,
+            FetchLineError::AccessFile => PtxError::AccessFile,
+        }
     }
 }
 
diff --git a/src/io/stl.rs b/src/io/stl.rs
index b4f4213..1b7adab 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -732,7 +732,10 @@ impl From<FromBytesError> for StlError {
 }
 
 impl From<FetchLineError> for StlError {
-    fn from(_error: FetchLineError) -> Self {
-        StlError::LoadFileEndReached
+    fn from(error: FetchLineError) -> Self {
+        match error {
+            FetchLineError::EndReached => StlError::LoadFileEndReached,
+            FetchLineError::AccessFile => StlError::AccessFile,
+        }
     }
 }
diff --git a/src/io/utils.rs b/src/io/utils.rs
index 6ac621a..ebd414f 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -87,16 +87,28 @@ where
 
 //------------------------------------------------------------------------------
 
-/// Fetch a single line
+/// Fetch a single line, error if there is none left
 #[inline(always)]
 pub fn fetch_line<'a, R>(read: &mut R, line_buffer: &'a mut Vec<u8>) -> FetchLineResult<&'a [u8]>
+where
+    R: BufRead,
+{
+    fetch_line_opt(read, line_buffer)?.ok_or(FetchLineError::EndReached)
+}
+
+/// Fetch a single line, None if there is none left
+#[inline(always)]
+pub fn fetch_line_opt<'a, R>(
+    read: &mut R,
+    line_buffer: &'a mut Vec<u8>,
+) -> std::io::Result<Option<&'a [u8]>>
 where
     R: BufRead,
 {
     line_buffer.clear();
     let n_read = read.read_until(b'\n', line_buffer)?;
     if n_read == 0 {
-        return Err(FetchLineError);
+        return Ok(None);
     }
 
     // Drop the '\n' (the last line of a file might not have one) and any other trailing whitespace
@@ -109,25 +121,31 @@ where
         }
     }
 
-    Ok(&line_buffer[0..line_buffer.len() - ignore_end])
+    Ok(Some(&line_buffer[0..line_buffer.len() - ignore_end]))
 }
 
 //------------------------------------------------------------------------------
 
 /// Error type for the fetch_line function
-pub struct FetchLineError;
+pub enum FetchLineError {
+    EndReached,
+    AccessFile,
+}
 
 /// Result type for the fetch_line function
 pub type FetchLineResult<T> = std::result::Result<T, FetchLineError>;
 
 impl fmt::Debug for FetchLineError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "Unable to fetch line")
+        match self {
+            Self::EndReached => write!(f, "Unable to fetch line, end reached"),
+            Self::AccessFile => write!(f, "Unable to fetch line"),
+        }
     }
 }
 
 impl From<ioError> for FetchLineError {
     fn from(_error: ioError) -> Self {
-        FetchLineError {}
+        FetchLineError::AccessFile
     }
 }
diff --git a/src/io/xy.rs b/src/io/xy.rs
index 4531160..0b2d6ba 100644
--- a/src/io/xy.rs
+++ b/src/io/xy.rs
@@ -101,19 +101,26 @@ where
         if self.is_done {
             return None;
         }
-        if let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-            self.i_line += 1;
-            Some(
-                Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
-                    .line(self.i_line, line)
-                    .map_err(|e| {
-                        self.is_done = true;
-                        e
-                    }),
-            )
-        } else {
-            self.is_done = true;
-            None
+        match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
+            Ok(Some(line)) => {
+                self.i_line += 1;
+                Some(
+                    Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
+                        .line(self.i_line, line)
+                        .map_err(|e| {
+                            self.is_done = true;
+                            e
+                        }),
+                )
+            }
+            Ok(None) => {
+                self.is_done = true;
+                None
+            }
+            Err(e) => {
+                self.is_done = true;
+                Some(Err(e.into()).index(self.i_line))
+            }
         }
     }
 }
diff --git a/src/io/xyz.rs b/src/io/xyz.rs
index 5399984..1ac353f 100644
--- a/src/io/xyz.rs
+++ b/src/io/xyz.rs
@@ -106,19 +106,26 @@ where
         if self.is_done {
             return None;
         }
-        if let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-            self.i_line += 1;
-            Some(
-                Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
-                    .line(self.i_line, line)
-                    .map_err(|e| {
-                        self.is_done = true;
-                        e
-                    }),
-            )
-        } else {
-            self.is_done = true;
-            None
+        match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
+            Ok(Some(line)) => {
+                self.i_line += 1;
+                Some(
+                    Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
+                        .line(self.i_line, line)
+                        .map_err(|e| {
+                            self.is_done = true;
+                            e
+                        }),
+                )
+            }
+            Ok(None) => {
+                self.is_done = true;
+                None
+            }
+            Err(e) => {
+                self.is_done = true;
+                Some(Err(e.into()).index(self.i_line))
+            }
         }
     }
 }
-- 
2.43.0


From 80c1c15f41e0d68e4c31315e446130ff465b8040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 08/62] fix: face index 0 in .obj files overflowed

---
 src/io/obj.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index 778f3e6..568f88f 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -322,7 +322,10 @@ fn fetch_face(line: &[u8]) -> ObjResult<[usize; 3]> {
     tmp = words.next().ok_or(ObjError::Face)?;
     let c: usize = from_ascii(until_bytes(tmp, b'/')).ok_or(ObjError::Face)?;
 
-    //@todo could fail if 0 in file
     //obj indexing starts at 1
-    Ok([a - 1, b - 1, c - 1])
+    Ok([
+        a.checked_sub(1).ok_or(ObjError::Face)?,
+        b.checked_sub(1).ok_or(ObjError::Face)?,
+        c.checked_sub(1).ok_or(ObjError::Face)?,
+    ])
 }
-- 
2.43.0


From 487bc5694b3fd2d5459c1f5e58ad6ab8ea820d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 09/62] fix: counts in file headers could abort loading with
 capacity overflows

---
 src/io/las/load.rs |  4 ++--
 src/io/off.rs      |  6 +++---
 src/io/ply/load.rs | 14 +++++++-------
 src/io/pts.rs      |  2 +-
 src/io/ptx.rs      |  7 +++++--
 src/io/stl.rs      | 12 ++++++------
 src/io/utils.rs    |  8 ++++++++
 7 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index da06a24..d4dbfa5 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -33,7 +33,7 @@ use std::{
     marker::PhantomData,
 };
 
-use super::super::{from_bytes::*, types::*};
+use super::super::{from_bytes::*, types::*, utils::*};
 
 //------------------------------------------------------------------------------
 
@@ -149,7 +149,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/off.rs b/src/io/off.rs
index f07b1ec..7131c07 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -332,8 +332,8 @@ where
                     .simple()?;
             }
             FaceDataReserve::ReserveDataFaces(n_vertices, n_faces) => {
-                mesh.reserve_vertices(n_vertices);
-                mesh.reserve_faces(n_faces);
+                mesh.reserve_vertices(limit_reserve(n_vertices));
+                mesh.reserve_faces(limit_reserve(n_faces));
             }
             FaceDataReserve::Data(x) => {
                 mesh.add_vertex(x);
@@ -355,7 +355,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ply/load.rs b/src/io/ply/load.rs
index 82ae4b6..a9d2006 100644
--- a/src/io/ply/load.rs
+++ b/src/io/ply/load.rs
@@ -26,7 +26,7 @@ use crate::*;
 
 use std::io::{BufRead, Read};
 
-use super::super::{byte_reader::*, types::*};
+use super::super::{byte_reader::*, types::*, utils::*};
 
 use super::{header::*, iterators::*, iterators_internal::*, types::*};
 
@@ -49,8 +49,8 @@ where
 
     match load_header(&mut read, &mut line_buffer, &mut i_line)? {
         Header::Full(header) => {
-            mesh.reserve_vertices(header.vertex.count);
-            mesh.reserve_faces(header.face.count);
+            mesh.reserve_vertices(limit_reserve(header.vertex.count));
+            mesh.reserve_faces(limit_reserve(header.face.count));
 
             match header.format {
                 Format::Ascii => load_mesh_ascii(&mut read, mesh, header, &mut i_line),
@@ -65,7 +65,7 @@ where
             Ok(MeshOrPoints::Mesh)
         }
         Header::Partial(header) => {
-            ip.reserve(header.vertex.count);
+            ip.reserve(limit_reserve(header.vertex.count));
 
             match header.format {
                 Format::Ascii => load_points_ascii(&mut read, ip, header, i_line),
@@ -97,8 +97,8 @@ where
                 mesh.add_vertex(p);
             }
             FaceDataReserve::ReserveDataFaces(n_d, n_f) => {
-                mesh.reserve_vertices(n_d);
-                mesh.reserve_faces(n_f);
+                mesh.reserve_vertices(limit_reserve(n_d));
+                mesh.reserve_faces(limit_reserve(n_f));
             }
             FaceDataReserve::Face([a, b, c]) => {
                 mesh.try_add_connection(VId(a), VId(b), VId(c))
@@ -124,7 +124,7 @@ where
 
     for rp in iterator {
         match rp? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/pts.rs b/src/io/pts.rs
index e91c84d..03a7a4b 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -193,7 +193,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index 2eb0c2c..fcacc59 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -155,7 +155,10 @@ where
 
         self.must_transform = self.transformation != Matrix4::identity();
 
-        self.n_points_to_fetch = rows * columns;
+        self.n_points_to_fetch = rows
+            .checked_mul(columns)
+            .ok_or(PtxError::Rows)
+            .index(self.i_line)?;
 
         Ok(())
     }
@@ -239,7 +242,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/stl.rs b/src/io/stl.rs
index 1b7adab..8e77e14 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -350,8 +350,8 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
-                mesh.reserve_vertices(3 * n);
-                mesh.reserve_faces(n);
+                mesh.reserve_vertices(limit_reserve(3 * n));
+                mesh.reserve_faces(limit_reserve(n));
             }
             DataReserve::Data(face) => {
                 mesh.add_face(face.a, face.b, face.c);
@@ -385,8 +385,8 @@ where
         match fr? {
             DataReserve::Reserve(n) => {
                 //Can't reserve vertices since not sure how many are unique
-                mesh.reserve_faces(n);
-                face_normals.reserve(n);
+                mesh.reserve_faces(limit_reserve(n));
+                face_normals.reserve(limit_reserve(n));
             }
             DataReserve::Data(face) => {
                 let [a, b, c, n] = [face.a, face.b, face.c, face.n];
@@ -443,8 +443,8 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
-                ip.reserve(3 * n);
-                face_normals.reserve(n);
+                ip.reserve(limit_reserve(3 * n));
+                face_normals.reserve(limit_reserve(n));
             }
             DataReserve::Data(face) => {
                 ip.push(face.a);
diff --git a/src/io/utils.rs b/src/io/utils.rs
index ebd414f..9de164f 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -57,6 +57,14 @@ where
 
 //------------------------------------------------------------------------------
 
+/// Counts within files can't be trusted, so limit how much is reserved before any data was read
+#[inline(always)]
+pub fn limit_reserve(n: usize) -> usize {
+    n.min(1 << 20)
+}
+
+//------------------------------------------------------------------------------
+
 /// Trims white space at the start of the input
 pub fn trim_start(text: &[u8]) -> &[u8] {
     let mut to_drop = 0;
-- 
2.43.0


From 1d38c4e5d4a1508e1407e727ee901c9384c623fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 10/62] fix: only the first point of .psl files was loaded

---
 src/io/psl.rs | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/io/psl.rs b/src/io/psl.rs
index e7f7fdd..8a44a99 100644
--- a/src/io/psl.rs
+++ b/src/io/psl.rs
@@ -72,31 +72,19 @@ where
     }
     #[inline(always)]
     fn fetch_counts(&mut self) -> PslResult<()> {
-        self.n_lines_left = if self.n_lines_left == 0 && self.n_passes_left > 0 {
-            fetch_pass_header_return_n_lines(&mut self.read)?
-        } else {
-            0
-        };
-        self.n_point_left = if self.n_point_left == 0 && self.n_lines_left > 0 {
-            fetch_line_header_return_n_points(&mut self.read)?
-        } else {
-            0
-        };
-        Ok(())
-    }
-    #[inline(always)]
-    fn reduce_count(&mut self) {
-        if self.n_point_left > 0 {
-            self.n_point_left -= 1
-        } else {
+        // there might be passes without lines and lines without points
+        while self.n_point_left <= 0 {
             if self.n_lines_left > 0 {
-                self.n_lines_left -= 1
+                self.n_lines_left -= 1;
+                self.n_point_left = fetch_line_header_return_n_points(&mut self.read)?;
+            } else if self.n_passes_left > 0 {
+                self.n_passes_left -= 1;
+                self.n_lines_left = fetch_pass_header_return_n_lines(&mut self.read)?;
             } else {
-                if self.n_passes_left > 0 {
-                    self.n_passes_left -= 1
-                }
+                break;
             }
         }
+        Ok(())
     }
 }
 
@@ -125,12 +113,12 @@ where
             return Some(Err(e));
         }
 
-        if self.n_point_left == 0 {
+        if self.n_point_left <= 0 {
             self.is_done = true;
             return None;
         }
 
-        self.reduce_count();
+        self.n_point_left -= 1;
 
         return Some(fetch_point(&mut self.read).map_err(|e| {
             self.is_done = true;
-- 
2.43.0


From bd7f56b4ca4adc38ccb2a6551361af3d91109cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 11/62] fix: PtxIterator continued after a point could not be
 parsed

---
 src/io/ptx.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index fcacc59..dec2745 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -207,7 +207,11 @@ where
                     Some(
                         Self::fetch_one(line, self.must_transform, &self.transformation)
                             .map(|x| DataReserve::Data(x))
-                            .line(self.i_line, line),
+                            .line(self.i_line, line)
+                            .map_err(|e| {
+                                self.is_done = true;
+                                e
+                            }),
                     )
                 }
                 Err(e) => {
-- 
2.43.0


From 8bf5862056496d00ad3a2d905048bfe362418393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 12/62] fix: missing last vertex and missing faces in ASCII
 .ply files were not reported

---
 src/io/ply/iterators_internal.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 382b1fb..6f5266f 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -378,7 +378,6 @@ where
             return None;
         }
         if self.current < self.header.vertex.count {
-            self.current += 1;
             let opt_line = match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
                 Ok(opt_line) => opt_line,
                 Err(e) => {
@@ -388,6 +387,7 @@ where
             };
             if let Some(line) = opt_line {
                 self.i_line += 1;
+                self.current += 1;
                 return Some(
                     Self::fetch_one(&self.header, line)
                         .line(self.i_line, line)
@@ -457,7 +457,6 @@ where
             return None;
         }
         if self.current < self.header.face.count {
-            self.current += 1;
             let opt_line = match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
                 Ok(opt_line) => opt_line,
                 Err(e) => {
@@ -467,6 +466,7 @@ where
             };
             if let Some(line) = opt_line {
                 self.i_line += 1;
+                self.current += 1;
                 return Some(
                     collect_index_line(&line)
                         .ok_or(PlyError::FaceStructure)
@@ -481,7 +481,11 @@ where
 
         self.is_done = true;
 
-        None
+        if self.current != self.header.face.count {
+            Some(Err(PlyError::FaceStructure).simple())
+        } else {
+            None
+        }
     }
 }
 
-- 
2.43.0


From 4563aa8fec8ababa86140e8110a8c5353defa47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 13/62] fix: .ply mesh iterators continued with faces after a
 vertex failed

---
 src/io/ply/iterators_internal.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 6f5266f..afb6925 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -42,6 +42,7 @@ where
     R: BufRead,
 {
     header: FullHeader,
+    is_done: bool,
     p_iter: Option<PlyAsciiPointsIterator<P, R>>,
     f_iter: Option<PlyAsciiFacesIterator<R>>,
 }
@@ -55,6 +56,7 @@ where
         let partial_header: PartialHeader = header.clone().into();
         Self {
             header,
+            is_done: false,
             p_iter: Some(PlyAsciiPointsIterator::new(read, partial_header, i_line)),
             f_iter: None,
         }
@@ -69,9 +71,15 @@ where
     type Item = PlyIOResult<io::types::FaceData<P>>;
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.is_done {
+            return None;
+        }
         if let Some(ref mut p_iter) = self.p_iter {
             match p_iter.next() {
-                Some(x) => return Some(x.map(|x| io::types::FaceData::Data(x))),
+                Some(x) => {
+                    self.is_done = x.is_err();
+                    return Some(x.map(|x| io::types::FaceData::Data(x)));
+                }
                 None => {
                     // point iteration done, switch to face iteration
                     // unwrap safe, since in if let Some()
@@ -110,6 +118,7 @@ where
     BR: IsByteReader,
 {
     header: FullHeader,
+    is_done: bool,
     p_iter: Option<PlyBinaryPointsIterator<BR, P, R>>,
     f_iter: Option<PlyBinaryFacesIterator<BR, R>>,
 }
@@ -124,6 +133,7 @@ where
         let partial_header: PartialHeader = header.clone().into();
         Self {
             header,
+            is_done: false,
             p_iter: Some(PlyBinaryPointsIterator::new(read, partial_header)),
             f_iter: None,
         }
@@ -139,9 +149,15 @@ where
     type Item = PlyResult<io::types::FaceData<P>>;
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.is_done {
+            return None;
+        }
         if let Some(ref mut p_iter) = self.p_iter {
             match p_iter.next() {
-                Some(x) => return Some(x.map(|x| io::types::FaceData::Data(x))),
+                Some(x) => {
+                    self.is_done = x.is_err();
+                    return Some(x.map(|x| io::types::FaceData::Data(x)));
+                }
                 None => {
                     // point iteration done, switch to face iteration
                     // unwrap safe, since in if let Some()
-- 
2.43.0


From 17dd26dac5b2a7b317b268b74ee28e4344cacd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 14/62] fix: .ply vertex properties were read with the type of
 the wrong coordinate, duplicates paniced

---
 src/io/ply/header.rs | 47 ++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index f4b7bcf..eeb92af 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -42,7 +42,6 @@ where
     R: BufRead,
 {
     let mut vertex_order = [Xyz::X, Xyz::X, Xyz::X];
-    let mut i_vertex_order = 0;
 
     let mut ply_found = false;
     let mut read_state = HeaderReadState::Meta;
@@ -147,21 +146,25 @@ where
                         .next()
                         .ok_or(PlyError::InvalidProperty)
                         .line(*i_line, line)?;
-                    if id == b"x" {
-                        opt_fst_type = Some(VertexType::try_from(t).line(*i_line, line)?);
-                        n_types_found += 1;
-                        vertex_order[i_vertex_order] = Xyz::X;
-                        i_vertex_order += 1;
-                    } else if id == b"y" {
-                        opt_snd_type = Some(VertexType::try_from(t).line(*i_line, line)?);
-                        n_types_found += 1;
-                        vertex_order[i_vertex_order] = Xyz::Y;
-                        i_vertex_order += 1;
-                    } else if id == b"z" {
-                        opt_third_type = Some(VertexType::try_from(t).line(*i_line, line)?);
+                    let opt_xyz = match id {
+                        b"x" => Some(Xyz::X),
+                        b"y" => Some(Xyz::Y),
+                        b"z" => Some(Xyz::Z),
+                        _ => None,
+                    };
+                    if let Some(xyz) = opt_xyz {
+                        let vertex_type = Some(VertexType::try_from(t).line(*i_line, line)?);
+                        match n_types_found {
+                            0 => opt_fst_type = vertex_type,
+                            1 => opt_snd_type = vertex_type,
+                            2 => opt_third_type = vertex_type,
+                            _ => {
+                                return Err(PlyError::InvalidVertexDimensionDefinition)
+                                    .line(*i_line, line)
+                            }
+                        }
+                        vertex_order[n_types_found] = xyz;
                         n_types_found += 1;
-                        vertex_order[i_vertex_order] = Xyz::Z;
-                        i_vertex_order += 1;
                     } else if n_types_found == 0 {
                         vertex_before.bytes += t.size_bytes();
                         vertex_before.words += 1;
@@ -224,7 +227,13 @@ where
         }
 
         if line == b"end_header" && ply_found {
-            if let (Some(format), Some(n_vertices), Some(x_type), Some(y_type), Some(z_type)) = (
+            if let (
+                Some(format),
+                Some(n_vertices),
+                Some(fst_type),
+                Some(snd_type),
+                Some(third_type),
+            ) = (
                 opt_format,
                 opt_n_vertices,
                 opt_fst_type,
@@ -235,9 +244,9 @@ where
                     count: n_vertices,
                     format: VertexFormat {
                         order: VertexOrder::try_from(vertex_order).line(*i_line, line)?,
-                        first: x_type,
-                        snd: y_type,
-                        third: z_type,
+                        first: fst_type,
+                        snd: snd_type,
+                        third: third_type,
                         before: vertex_before,
                         between_first_snd: vertex_between_first_snd,
                         between_snd_third: vertex_between_snd_third,
-- 
2.43.0


From b1506a973378872390238905c8f9f54cbe13de07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 15/62] fix: face properties before the indices were read as
 indices in ASCII .ply files

---
 src/io/ply/iterators_internal.rs | 2 +-
 src/io/ply/utils.rs              | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index afb6925..b84345a 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -484,7 +484,7 @@ where
                 self.i_line += 1;
                 self.current += 1;
                 return Some(
-                    collect_index_line(&line)
+                    collect_index_line(&line, self.header.face.format.before.words)
                         .ok_or(PlyError::FaceStructure)
                         .line(self.i_line, line)
                         .map_err(|e| {
diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index dc00574..12c2544 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -34,8 +34,9 @@ use std::io::Read;
 //------------------------------------------------------------------------------
 
 #[inline(always)]
-pub fn collect_index_line(line: &[u8]) -> Option<[usize; 3]> {
+pub fn collect_index_line(line: &[u8], n_words_before: usize) -> Option<[usize; 3]> {
     let mut words = to_words_skip_empty(line);
+    skip_n(&mut words, n_words_before);
     if words.next()? != b"3" {
         return None;
     }
-- 
2.43.0


From 08690b8c79feab10b2ec81b4f2a1887eb2ba0751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 16/62] fix: binary .ply files could be written incompletely
 without an error

---
 src/io/ply/save.rs | 52 +++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/io/ply/save.rs b/src/io/ply/save.rs
index 9b58ae3..e71fe7f 100644
--- a/src/io/ply/save.rs
+++ b/src/io/ply/save.rs
@@ -192,28 +192,28 @@ where
         Precision::P32 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
             }
         }
 
         Precision::P64 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
             }
         }
     }
 
     for i in 0..mesh.num_faces() {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating num_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
@@ -288,12 +288,12 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
 
@@ -301,22 +301,22 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
     }
 
     for i in 0..n_faces {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating n_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
-- 
2.43.0


From a1730367b9aed5a6b33ecec88eeea0c90a37da00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 17/62] fix: .pts and .off files ending before all declared
 elements were silently accepted

---
 src/io/off.rs | 19 +++++++++++++++++--
 src/io/pts.rs |  7 ++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/io/off.rs b/src/io/off.rs
index 7131c07..0c841c5 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -141,7 +141,10 @@ where
 
         self.is_done = true;
 
-        None
+        match self.n_vertices {
+            Some(n) if self.n_added < n => Some(Err(OffError::Vertex).index(self.i_line)),
+            _ => None,
+        }
     }
 }
 
@@ -167,6 +170,7 @@ where
     off_seen: bool,
     counts: Option<[usize; 2]>,
     n_vertices_added: usize,
+    n_faces_added: usize,
     phantom_p: PhantomData<P>,
 }
 
@@ -184,6 +188,7 @@ where
             off_seen: false,
             counts: None,
             n_vertices_added: 0,
+            n_faces_added: 0,
             phantom_p: PhantomData,
         }
     }
@@ -285,6 +290,8 @@ where
                         .map(|x| FaceDataReserve::Data(x))
                         .line(self.i_line, line)
                 } else {
+                    self.n_faces_added += 1;
+
                     Self::fetch_face(line)
                         .map(|x| FaceDataReserve::Face(x))
                         .line(self.i_line, line)
@@ -302,7 +309,15 @@ where
 
         self.is_done = true;
 
-        None
+        match self.counts {
+            Some([n_vertices, _]) if self.n_vertices_added < n_vertices => {
+                Some(Err(OffError::Vertex).index(self.i_line))
+            }
+            Some([_, n_faces]) if self.n_faces_added < n_faces => {
+                Some(Err(OffError::Face).index(self.i_line))
+            }
+            _ => None,
+        }
     }
 }
 
diff --git a/src/io/pts.rs b/src/io/pts.rs
index 03a7a4b..8c12f56 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -171,7 +171,12 @@ where
 
         self.is_done = true;
 
-        None
+        match self.n_vertices {
+            Some(n) if self.n_vertices_added < n => {
+                Some(Err(PtsError::Vertex).index(self.i_line))
+            }
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From 36023a903431de1295507e053bc92525f0f84f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 18/62] fix: ASCII .stl files ending within a facet were
 silently accepted

---
 src/io/stl.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index 8e77e14..58f1f99 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -308,10 +308,8 @@ where
         }
 
         match read_stl_facet(&mut self.read, &mut self.line_buffer, &mut self.i_line) {
-            Ok([a, b, c, n]) => return Some(Ok(DataReserve::Data(StlFace { a, b, c, n }))),
-            Err(WithLineInfo::None(StlError::LoadFileEndReached))
-            | Err(WithLineInfo::Index(_, StlError::LoadFileEndReached))
-            | Err(WithLineInfo::Line(_, _, StlError::LoadFileEndReached)) => {
+            Ok(Some([a, b, c, n])) => return Some(Ok(DataReserve::Data(StlFace { a, b, c, n }))),
+            Ok(None) => {
                 self.is_done = true;
                 return None;
             }
@@ -514,22 +512,26 @@ where
 
 //------------------------------------------------------------------------------
 
+/// Reads the next facet, None if there is none left
 fn read_stl_facet<P, R>(
     read: &mut R,
     line_buffer: &mut Vec<u8>,
     i_line: &mut usize,
-) -> StlIOResult<[P; 4]>
+) -> StlIOResult<Option<[P; 4]>>
 where
     P: IsBuildable3D,
     R: BufRead,
 {
     let mut line: &[u8];
 
-    line = trim_start(fetch_line(read, line_buffer).index(*i_line)?);
+    line = match fetch_line_opt(read, line_buffer).index(*i_line)? {
+        Some(line) => trim_start(line),
+        None => return Ok(None),
+    };
     *i_line += 1;
 
     if line.starts_with(b"endsolid") {
-        return Err(StlError::LoadFileEndReached).line(*i_line, line);
+        return Ok(None);
     }
 
     if !line.starts_with(b"facet") {
@@ -580,7 +582,7 @@ where
         return Err(StlError::EndFacet).line(*i_line, line);
     }
 
-    Ok([a, b, c, n])
+    Ok(Some([a, b, c, n]))
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 77a57725ba9b8f8aa750f7d63d1a88518469fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 19/62] fix: .las files with a too short point record length
 paniced

---
 src/io/las/types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/las/types.rs b/src/io/las/types.rs
index 8966e55..4749990 100644
--- a/src/io/las/types.rs
+++ b/src/io/las/types.rs
@@ -64,6 +64,11 @@ impl TryFrom<HeaderRaw> for Header {
             return Err(LasError::UnknownPointFormat);
         }
 
+        // Every point format starts with the coordinates
+        if (x.point_record_length as usize) < std::mem::size_of::<PointData>() {
+            return Err(LasError::BinaryData);
+        }
+
         Ok(Header {
             offset_point_data: x.offset_point_data,
             point_record_length: x.point_record_length,
-- 
2.43.0


From 7a1d6132bba5eb3d232233a4553e9635a8c214fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 20/62] fix: small .las files before version 1.4 were rejected
 and files that aren't .las accepted

---
 src/io/las/load.rs  | 15 ++++++++++++---
 src/io/las/types.rs | 16 +++++++++++++++-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index d4dbfa5..e21ad24 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -159,12 +159,21 @@ where
 
 //------------------------------------------------------------------------------
 
-fn load_header<R>(mut read: R) -> LasResult<HeaderRaw>
+fn load_header<R>(read: R) -> LasResult<HeaderRaw>
 where
     R: Read,
 {
-    let mut buffer = [0u8; 375];
-    read.read_exact(&mut buffer)?;
+    // Headers before version 1.4 are smaller, so the file might be too
+    let mut buffer = Vec::with_capacity(HEADER_SIZE_MAX);
+    read.take(HEADER_SIZE_MAX as u64).read_to_end(&mut buffer)?;
+    if buffer.len() < HEADER_SIZE_MIN {
+        return Err(LasError::Header);
+    }
+    let header_size = u16::from_le_bytes(buffer[94..96].try_into()?) as usize;
+    if buffer.len() < header_size.min(HEADER_SIZE_MAX) {
+        return Err(LasError::Header);
+    }
+    buffer.resize(HEADER_SIZE_MAX, 0);
 
     Ok(HeaderRaw {
         file_signature: array_from_bytes_le!(u8, 4, &buffer[0..4])?, //4 4
diff --git a/src/io/las/types.rs b/src/io/las/types.rs
index 4749990..24d090e 100644
--- a/src/io/las/types.rs
+++ b/src/io/las/types.rs
@@ -49,13 +49,22 @@ impl TryFrom<HeaderRaw> for Header {
     type Error = LasError;
 
     fn try_from(x: HeaderRaw) -> LasResult<Header> {
+        if x.file_signature != *b"LASF" {
+            return Err(LasError::Header);
+        }
+
         if x.version_major > 1 || x.version_minor > 4 {
             return Err(LasError::UnsupportedVersion);
         }
 
         // These are conversions according to the legacy mode
         let n_point_records = if x.legacy_n_point_records == 0 {
-            x.n_point_records
+            // only exists within the header of version 1.4
+            if (x.header_size as usize) < HEADER_SIZE_MAX {
+                0
+            } else {
+                x.n_point_records
+            }
         } else {
             x.legacy_n_point_records as u64
         };
@@ -85,6 +94,11 @@ impl TryFrom<HeaderRaw> for Header {
 
 //------------------------------------------------------------------------------
 
+/// Size of the header in version 1.4
+pub const HEADER_SIZE_MAX: usize = 375;
+/// Size of the header before version 1.3
+pub const HEADER_SIZE_MIN: usize = 227;
+
 #[derive(Debug)]
 // This header reflects the 1.4 spec
 pub struct HeaderRaw {
-- 
2.43.0


From ee2bf0572fab18ba32a551edcd4a9adad77c289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 21/62] fix: G90, G91 and G92 without parameters were ignored
 in .gcode files

---
 src/io/gcode.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index d82ae80..b27d3da 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -96,7 +96,7 @@ where
             };
             self.i_line += 1;
 
-            if line.len() >= 4 && line[0] == b'G' {
+            if line.len() >= 3 && line[0] == b'G' {
                 if line[2] == b' ' && (line[1] == b'1' || line[1] == b'2' || line[1] == b'3') {
                     // Move according to absolute/relative
                     let mut any_changed = false;
@@ -138,7 +138,8 @@ where
                             }
                         }
                     }
-                } else if line[1] == b'9' && line[3] == b' ' {
+                } else if line[1] == b'9' && (line.len() == 3 || line[3] == b' ' || line[3] == b';')
+                {
                     // G9x
                     if line[2] == b'0' {
                         // G90
@@ -150,7 +151,7 @@ where
                         // G92
                         // Move according absolute
                         let mut any_changed = false;
-                        match command(&line[4..])
+                        match command(&line[3..])
                             .ok_or(GcodeError::Command)
                             .line(self.i_line, line)
                         {
-- 
2.43.0


From 5315f02281aea000a182e4baf2ca721b350739bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 22/62] fix: contains paniced on an empty needle

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 070c7ff..04543ed 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -59,7 +59,7 @@ pub fn contains<T>(haystack: &[T], needle: &[T]) -> bool
 where
     T: PartialEq,
 {
-    haystack.windows(needle.len()).any(|x| x == needle)
+    needle.is_empty() || haystack.windows(needle.len()).any(|x| x == needle)
 }
 
 /// Max of three f64 values
-- 
2.43.0


From bbfed2e0fdd5aad51e0174523265d9a7b71e07eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 23/62] fix: save_stl_ascii paniced on degenerate faces

---
 src/io/stl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index 58f1f99..01e4c67 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -63,7 +63,7 @@ where
 
     for i in 0..mesh.num_faces() {
         let [v1, v2, v3] = mesh.face_vertices(FId(i)).unwrap(); // safe since iterating num_faces
-        let n = mesh.face_normal(FId(i)).unwrap(); // safe since iterating num_faces
+        let n = mesh.face_normal(FId(i)).unwrap_or(Norm3D::norm_z()); // degenerate faces don't have a normal
         let buffer = "facet normal ".to_string()
             + &str_exp(&n)
             + "\n"
-- 
2.43.0


From d0f13937c6424eb3b55ef1fc1dc3345ca8e1e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 24/62] fix: .ply vertices with cyclic coordinate order were
 loaded with swapped coordinates

---
 src/io/ply/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index 12c2544..a1aa4e8 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -91,8 +91,8 @@ where
         VertexOrder::Xyz => P::new(fst, snd, third),
         VertexOrder::Xzy => P::new(fst, third, snd),
         VertexOrder::Yxz => P::new(snd, fst, third),
-        VertexOrder::Yzx => P::new(snd, third, fst),
-        VertexOrder::Zxy => P::new(third, fst, snd),
+        VertexOrder::Yzx => P::new(third, fst, snd),
+        VertexOrder::Zxy => P::new(snd, third, fst),
         VertexOrder::Zyx => P::new(third, snd, fst),
     }
 }
-- 
2.43.0


From ea5d5f18e4bd2e90fa11509c8a69dea3dd94b64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 25/62] fix: very large and very small vectors could not be
 normalized

---
 src/norm_2d.rs | 25 +++++++++++++++++++------
 src/norm_3d.rs | 28 +++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/norm_2d.rs b/src/norm_2d.rs
index fbdbc45..b1dce01 100644
--- a/src/norm_2d.rs
+++ b/src/norm_2d.rs
@@ -133,16 +133,29 @@ impl IsNormalized2D for Norm2D {
     where
         P: Is2D,
     {
-        let l = *p.abs();
-        if l == 0.0 {
-            return Err(ErrorKind::NormalizeVecWithoutLength);
+        let (x, y) = (p.x(), p.y());
+        let sqr_l = x * x + y * y;
+
+        if sqr_l.is_normal() {
+            let f = 1.0 / sqr_l.sqrt();
+            return Ok(Norm2D {
+                x: f * x,
+                y: f * y,
+            });
         }
 
-        let f = 1.0 / l;
+        // scale to prevent overflow and underflow of the squares
+        let max = x.abs().max(y.abs());
+        let (x, y) = (x / max, y / max);
+        let l = (x * x + y * y).sqrt();
+
+        if l.is_nan() {
+            return Err(ErrorKind::NormalizeVecWithoutLength);
+        }
 
         Ok(Norm2D {
-            x: f * p.x(),
-            y: f * p.y(),
+            x: x / l,
+            y: y / l,
         })
     }
 }
diff --git a/src/norm_3d.rs b/src/norm_3d.rs
index 0aa5971..3333ce2 100644
--- a/src/norm_3d.rs
+++ b/src/norm_3d.rs
@@ -145,17 +145,31 @@ impl IsNormalized3D for Norm3D {
     where
         P: Is3D,
     {
-        let l = *p.abs();
-        if l == 0.0 {
-            return Err(ErrorKind::NormalizeVecWithoutLength);
+        let (x, y, z) = (p.x(), p.y(), p.z());
+        let sqr_l = x * x + y * y + z * z;
+
+        if sqr_l.is_normal() {
+            let f = 1.0 / sqr_l.sqrt();
+            return Ok(Norm3D {
+                x: f * x,
+                y: f * y,
+                z: f * z,
+            });
         }
 
-        let f = 1.0 / l;
+        // scale to prevent overflow and underflow of the squares
+        let max = x.abs().max(y.abs().max(z.abs()));
+        let (x, y, z) = (x / max, y / max, z / max);
+        let l = (x * x + y * y + z * z).sqrt();
+
+        if l.is_nan() {
+            return Err(ErrorKind::NormalizeVecWithoutLength);
+        }
 
         Ok(Norm3D {
-            x: f * p.x(),
-            y: f * p.y(),
-            z: f * p.z(),
+            x: x / l,
+            y: y / l,
+            z: z / l,
         })
     }
 }
-- 
2.43.0


From eb2aa3cc5cf6cb59099f3589bc74cd3f517b86b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 26/62] fix: HalfEdge::twin returned the edge after the twin

---
 src/half_edge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index 8d7dafb..45995e2 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -112,7 +112,7 @@ where
             for originating_id in cache.iter() {
                 let _ = result.next(*originating_id).map(|candidate_id| {
                     if result.tails.get(candidate_id.0) == result.tails.get(i) {
-                        result.twins[i] = Some(candidate_id)
+                        result.twins[i] = Some(*originating_id)
                     }
                 });
             }
-- 
2.43.0


From 1ad8039164a2efa55b5839c1ce5b1ac02c2ce104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 27/62] fix: vertices without faces at the end of a mesh were
 no valid ids of its half edges

---
 src/half_edge.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index 45995e2..c4e695d 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -91,6 +91,11 @@ where
             }
         }
 
+        // vertices might not be used by any face
+        if vertices_start_edges.len() < n_vertices {
+            vertices_start_edges.resize(n_vertices, IC::with_support_for(n_edges));
+        }
+
         let mut result = HalfEdge {
             tails,
             twins,
-- 
2.43.0


From 25b4f7c95259b7dea37b76c0e462c7641296be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 28/62] fix: face ids out of bounds could overflow

---
 src/mesh_3d.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh_3d.rs b/src/mesh_3d.rs
index 77565a0..b782ea3 100644
--- a/src/mesh_3d.rs
+++ b/src/mesh_3d.rs
@@ -56,14 +56,14 @@ where
     }
 
     fn face_vertex_ids(&self, faceid: FId) -> Option<Face3> {
+        if faceid.0 >= self.num_faces() {
+            return None;
+        }
+
         let id1 = 3 * faceid.0 + 0;
         let id2 = 3 * faceid.0 + 1;
         let id3 = 3 * faceid.0 + 2;
 
-        if id3 >= self.topology.len() {
-            return None;
-        }
-
         Some(Face3::new(
             VId(self.topology.get(id1)),
             VId(self.topology.get(id2)),
-- 
2.43.0


From 1f4e9b2756b7cb73cc0ca9cd4c89943058f8b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 29/62] fix: heal_mesh did not remove duplicate faces

---
 src/heal_mesh.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/heal_mesh.rs b/src/heal_mesh.rs
index 96aadf2..090b7e1 100644
--- a/src/heal_mesh.rs
+++ b/src/heal_mesh.rs
@@ -24,6 +24,7 @@ OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 use crate::*;
 
+use fnv::FnvHashSet;
 use std::hash::Hash;
 
 //------------------------------------------------------------------------------
@@ -56,11 +57,24 @@ where
         result.add_vertex(x);
     }
 
+    let mut added = FnvHashSet::default();
+
     for f in 0..nf_new {
         let (a, b, c) = (indices[3 * f + 0], indices[3 * f + 1], indices[3 * f + 2]);
         if a == b || a == c || b == c {
             continue;
         }
+        // independent of which vertex the face starts with
+        let key = if a < b && a < c {
+            (a, b, c)
+        } else if b < c {
+            (b, c, a)
+        } else {
+            (c, a, b)
+        };
+        if !added.insert(key) {
+            continue;
+        }
         result.try_add_connection(VId(a), VId(b), VId(c))?;
     }
 
-- 
2.43.0


From ba12a318c918acc21a33e40876feca25d7cb4caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 30/62] fix: unify_faces paniced on degenerate faces

---
 src/unify_faces.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unify_faces.rs b/src/unify_faces.rs
index 0c84f63..a62cd1e 100644
--- a/src/unify_faces.rs
+++ b/src/unify_faces.rs
@@ -105,10 +105,10 @@ where
         let f = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since index safe
         if must_flip[i] {
             //println!("add normal");
-            result.try_add_connection(f.a, f.c, f.b).unwrap(); // safe assuming original mesh was valid
+            result.try_add_connection(f.a, f.c, f.b)?;
         } else {
             //println!("add flipped");
-            result.try_add_connection(f.a, f.b, f.c).unwrap(); // safe assuming original mesh was valid
+            result.try_add_connection(f.a, f.b, f.c)?;
         }
     }
 
-- 
2.43.0


From 64b20a00a793351fd76771cd7e2f700bdfa6f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 31/62] fix: unify_faces flipped faces of correctly oriented
 meshes with sharp edges

---
 src/unify_faces.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/unify_faces.rs b/src/unify_faces.rs
index a62cd1e..03783a3 100644
--- a/src/unify_faces.rs
+++ b/src/unify_faces.rs
@@ -67,18 +67,20 @@ where
             neighbour_buffer.clear();
             collect_neighbour_faces(mesh, &v_to_f, FId(this), &mut neighbour_buffer)?;
 
-            let [v1, v2, v3] = mesh.face_vertices(FId(this)).unwrap(); // safe since index is safe
-            let n_this = normal_of_face(&v1, &v2, &v3);
+            let f_this = mesh.face_vertex_ids(FId(this)).unwrap(); // safe since index is safe
 
             for neighbour in neighbour_buffer.iter() {
                 if checked[neighbour] {
                     continue;
                 }
 
-                let [v1n, v2n, v3n] = mesh.face_vertices(FId(neighbour)).unwrap(); // safe since index is safe
-                let n_neighbour = normal_of_face(&v1n, &v2n, &v3n);
+                let f_neighbour = mesh.face_vertex_ids(FId(neighbour)).unwrap(); // safe since index is safe
 
-                let are_different = n_this.dot(&n_neighbour) < 0.0;
+                // orientation is only defined between faces sharing an edge
+                let are_different = match have_different_orientation(&f_this, &f_neighbour) {
+                    None => continue,
+                    Some(x) => x,
+                };
                 let flip_this = must_flip[this];
                 must_flip.set(
                     neighbour,
@@ -117,6 +119,27 @@ where
 
 //------------------------------------------------------------------------------
 
+/// None if there is no shared edge
+fn have_different_orientation(f1: &Face3, f2: &Face3) -> Option<bool> {
+    let edges = |f: &Face3| [(f.a, f.b), (f.b, f.c), (f.c, f.a)];
+
+    for (t1, h1) in edges(f1).iter() {
+        for (t2, h2) in edges(f2).iter() {
+            // correctly oriented neighbours traverse their shared edge in opposite directions
+            if t1 == t2 && h1 == h2 {
+                return Some(true);
+            }
+            if t1 == h2 && h1 == t2 {
+                return Some(false);
+            }
+        }
+    }
+
+    None
+}
+
+//------------------------------------------------------------------------------
+
 fn vertex_to_face<P, M>(mesh: &M) -> Vec<FnvHashSet<usize>>
 where
     M: IsMesh<P, Face3> + Default,
-- 
2.43.0


From ce5006999855402914464c60b1f324ea76eef417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 32/62] fix: PointCloud3Df32::get_d with a huge index
 overflowed instead of returning None

---
 src/point_cloud_3d_f32.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/point_cloud_3d_f32.rs b/src/point_cloud_3d_f32.rs
index 290b541..e19b69f 100644
--- a/src/point_cloud_3d_f32.rs
+++ b/src/point_cloud_3d_f32.rs
@@ -95,6 +95,9 @@ where
     }
 
     fn get_d(&self, index: usize) -> Option<P> {
+        if index >= self.len_d() {
+            return None;
+        }
         Some(P::new(
             *self.data.get(3 * index + 0)? as f64,
             *self.data.get(3 * index + 1)? as f64,
-- 
2.43.0


From 63114716131c4f67d7b6ac31c569786eded4e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 33/62] fix: sort_x/y/z did not break ties by the other
 coordinates

---
 src/functions.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 1573438..e8ad42e 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -113,8 +113,8 @@ where
     xs.sort_by(|a, b| {
         a.x()
             .partial_cmp(&b.x())
-            .or_else(|| a.y().partial_cmp(&b.y()))
             .unwrap_or(Ordering::Equal)
+            .then_with(|| a.y().partial_cmp(&b.y()).unwrap_or(Ordering::Equal))
     });
 }
 
@@ -126,8 +126,8 @@ where
     xs.sort_by(|a, b| {
         a.y()
             .partial_cmp(&b.y())
-            .or_else(|| a.x().partial_cmp(&b.x()))
             .unwrap_or(Ordering::Equal)
+            .then_with(|| a.x().partial_cmp(&b.x()).unwrap_or(Ordering::Equal))
     });
 }
 
@@ -139,9 +139,9 @@ where
     xs.sort_by(|a, b| {
         a.x()
             .partial_cmp(&b.x())
-            .or_else(|| a.y().partial_cmp(&b.y()))
-            .or_else(|| a.z().partial_cmp(&b.z()))
             .unwrap_or(Ordering::Equal)
+            .then_with(|| a.y().partial_cmp(&b.y()).unwrap_or(Ordering::Equal))
+            .then_with(|| a.z().partial_cmp(&b.z()).unwrap_or(Ordering::Equal))
     });
 }
 
@@ -153,9 +153,9 @@ where
     xs.sort_by(|a, b| {
         a.y()
             .partial_cmp(&b.y())
-            .or_else(|| a.z().partial_cmp(&b.z()))
-            .or_else(|| a.x().partial_cmp(&b.x()))
             .unwrap_or(Ordering::Equal)
+            .then_with(|| a.z().partial_cmp(&b.z()).unwrap_or(Ordering::Equal))
+            .then_with(|| a.x().partial_cmp(&b.x()).unwrap_or(Ordering::Equal))
     });
 }
 
@@ -167,9 +167,9 @@ where
     xs.sort_by(|a, b| {
         a.z()
             .partial_cmp(&b.z())
-            .or_else(|| a.x().partial_cmp(&b.x()))
-            .or_else(|| a.y().partial_cmp(&b.y()))
             .unwrap_or(Ordering::Equal)
+            .then_with(|| a.x().partial_cmp(&b.x()).unwrap_or(Ordering::Equal))
+            .then_with(|| a.y().partial_cmp(&b.y()).unwrap_or(Ordering::Equal))
     });
 }
 
-- 
2.43.0


From f97aeb466ee0c6fb234f5bed72dd8a94a00ffe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 34/62] fix: convex_hull_2d of a single position was empty,
 duplicates could appear twice in the hull

---
 src/convex_hull_2d.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/convex_hull_2d.rs b/src/convex_hull_2d.rs
index df98677..ef04651 100644
--- a/src/convex_hull_2d.rs
+++ b/src/convex_hull_2d.rs
@@ -34,13 +34,19 @@ where
     RA: IsRandomAccessible<P>,
     P: IsBuildable2D + Clone,
 {
-    let n = ra.len();
-
     let mut sorted = PointCloud2D::new();
     sorted.append_ra(ra);
     sorted.sort_x();
+    sorted
+        .data
+        .dedup_by(|a, b| a.x() == b.x() && a.y() == b.y());
     let sorted = sorted;
 
+    let n = sorted.len();
+    if n < 2 {
+        return sorted.data;
+    }
+
     let mut lower = Vec::<P>::new();
     for i in 0..n {
         while lower.len() >= 2
-- 
2.43.0


From 4525dab45e69493898faf1b7f80a5d0439fabcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 35/62] fix: douglas_peucker_2d distance was NaN for vertical
 lines and closed paths

---
 src/douglas_peucker_2d.rs | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/douglas_peucker_2d.rs b/src/douglas_peucker_2d.rs
index 162ed0d..22a098b 100644
--- a/src/douglas_peucker_2d.rs
+++ b/src/douglas_peucker_2d.rs
@@ -79,25 +79,14 @@ where
     Q: Is2D,
     R: Is2D,
 {
-    let a1 = l1.x();
-    let a2 = l1.y();
+    let (lx, ly) = (l2.x() - l1.x(), l2.y() - l1.y());
+    let (px, py) = (p.x() - l1.x(), p.y() - l1.y());
+    let l = lx.hypot(ly);
 
-    let b1 = l2.x();
-    let b2 = l2.y();
-
-    let c1 = p.x();
-    let c2 = p.y();
-
-    let x = (a1 * a1 * c1 - a1 * a2 * b2 + a1 * a2 * c2 - 2.0 * a1 * b1 * c1 + a1 * b2 * b2
-        - a1 * b2 * c2
-        + a2 * a2 * b1
-        - a2 * b1 * b2
-        - a2 * b1 * c2
-        + b1 * b1 * c1
-        + b1 * b2 * c2)
-        / (a1 * a1 - 2.0 * a1 * b1 + a2 * a2 - 2.0 * a2 * b2 + b1 * b1 + b2 * b2);
-
-    let y = ((a2 - b2) * x + a1 * b2 - a2 * b1) / (a1 - b1);
+    // not a line, e.g. closed path
+    if l == 0.0 {
+        return px.hypot(py);
+    }
 
-    ((x - p.x()).powi(2) + (y - p.y()).powi(2)).sqrt()
+    ((lx / l) * py - (ly / l) * px).abs()
 }
-- 
2.43.0


From b73ffda7e811dc7f6f504e9189c92d455b84e40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 36/62] fix: douglas_peucker_2d dropped the point it split at
 from the first half and doubled single points

---
 src/douglas_peucker_2d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/douglas_peucker_2d.rs b/src/douglas_peucker_2d.rs
index 22a098b..f1f291d 100644
--- a/src/douglas_peucker_2d.rs
+++ b/src/douglas_peucker_2d.rs
@@ -31,7 +31,7 @@ pub fn douglas_peucker_2d<P>(mut pc: PointCloud2D<P>, epsilon: f64) -> PointClou
 where
     P: Is2D + Clone,
 {
-    if pc.len() < 1 {
+    if pc.len() < 2 {
         return pc;
     }
 
@@ -51,7 +51,7 @@ where
         let mut pc1 = pc.clone();
         let mut pc2 = pc.clone();
 
-        pc1.data = pc.data.iter().cloned().take(index).collect();
+        pc1.data = pc.data.iter().cloned().take(index + 1).collect();
         pc1 = douglas_peucker_2d(pc1, epsilon);
 
         pc2.data = pc.data.into_iter().skip(index).collect();
-- 
2.43.0


From 63f1d172bfb89acbf9c28a494ca2bbc332a1b174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 37/62] fix: interpolate_bezier overflowed with more than 21
 base points

---
 src/interpolate_2d.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index b0ff22f..99b175a 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -28,21 +28,13 @@ use crate::*;
 
 //------------------------------------------------------------------------------
 
-fn factorial(number: usize) -> usize {
-    let mut result = 1;
-
-    for i in 1..number + 1 {
-        result *= i;
-    }
-    result
-}
-
-fn binominal_coefficient(n: usize, k: usize) -> usize {
-    factorial(n) / (factorial(k) * factorial(n - k))
+/// floating point, since the factorials of an integer version overflow for more than 21 base points
+fn binominal_coefficient(n: usize, k: usize) -> f64 {
+    (0..k).fold(1.0, |x, i| x * ((n - i) as f64) / ((i + 1) as f64))
 }
 
 fn bernstein_polynomial(n: usize, i: usize, t: f64) -> f64 {
-    (binominal_coefficient(n, i) as f64) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
+    binominal_coefficient(n, i) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
 }
 
 fn control_polygon<P>(path: &PointCloud2D<P>, n_points: usize, t: f64) -> P
-- 
2.43.0


From 00ecae6a0724acb9bf6b291562a4efe873ac9581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 38/62] fix: linear and cosine interpolation returned NaN for
 repeated points, lost the last point to rounding and panicked for less than
 two points

---
 src/interpolate_2d.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index 99b175a..8d482b2 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -77,6 +77,15 @@ where
     Ok(pc)
 }
 
+/// Where the position lies between start (0) and end (1)
+fn proportion_within(start: f64, end: f64, position: f64) -> f64 {
+    if end > start {
+        ((position - start) / (end - start)).min(1.0)
+    } else {
+        0.0
+    }
+}
+
 /// Returns the Cosine interpolation of the given base points
 pub fn interpolate_cosine<P>(
     base_points: &PointCloud2D<P>,
@@ -90,7 +99,7 @@ where
     }
 
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = base_points.length() / (n_points - 1) as f64;
+    let p_dist = base_points.length() / (n_points.max(2) - 1) as f64;
 
     for i in 0..n_points {
         let mut traveled: f64 = 0.0;
@@ -103,9 +112,8 @@ where
             traveled +=
                 ((p_now.x() - p_prev.x()).powi(2) + (p_now.y() - p_prev.y()).powi(2)).sqrt();
 
-            if traveled >= p_dist * (i as f64) {
-                let proportion =
-                    ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before);
+            if traveled >= p_dist * (i as f64) || j + 1 == base_points.len() {
+                let proportion = proportion_within(traveled_before, traveled, p_dist * (i as f64));
                 let proportion2 = (1.0 - (proportion * PI).cos()) / 2.0;
                 pc.push(P::new(
                     p_prev.x() + proportion * (p_now.x() - p_prev.x()),
@@ -132,23 +140,21 @@ where
     }
 
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = base_points.length() / (n_points - 1) as f64;
+    let p_dist = base_points.length() / (n_points.max(2) - 1) as f64;
 
     for i in 0..n_points {
         let mut traveled: f64 = 0.0;
         let mut traveled_before: f64 = 0.0;
 
         for j in 1..base_points.len() {
-            //@todo fails if path too small, handle this
             let ref p_prev = base_points.data[j - 1];
             let ref p_now = base_points.data[j];
 
             traveled +=
                 ((p_now.x() - p_prev.x()).powi(2) + (p_now.y() - p_prev.y()).powi(2)).sqrt();
 
-            if traveled >= p_dist * (i as f64) {
-                let proportion =
-                    ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before);
+            if traveled >= p_dist * (i as f64) || j + 1 == base_points.len() {
+                let proportion = proportion_within(traveled_before, traveled, p_dist * (i as f64));
                 pc.push(P::new(
                     p_prev.x() + proportion * (p_now.x() - p_prev.x()),
                     p_prev.y() + proportion * (p_now.y() - p_prev.y()),
-- 
2.43.0


From 7f9ccb9087b4dcb0e649f6759b487195ccb68963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 39/62] fix: arc and involut_circle did not run from start to
 end, factories failed for less than two points

---
 src/factory_2d.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index 5027442..6f56fa1 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -56,10 +56,10 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
+    let p_dist = (end.0 - start.0) / (n_points.max(2) - 1) as f64;
 
     for i in 0..n_points {
-        let current = (i as f64) * p_dist;
+        let current = start.0 + (i as f64) * p_dist;
         pc.push(P::new(
             center.x() + d / 2.0 * (current.cos() + current * current.sin()),
             center.y() + d / 2.0 * (current.sin() - current * current.cos()),
@@ -81,7 +81,7 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
+    let p_dist = (end.0 - start.0) / (n_points.max(2) - 1) as f64;
 
     for i in 0..n_points {
         let radians = start.0 + (i as f64) * p_dist;
@@ -99,7 +99,7 @@ where
     P: IsBuildable2D,
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = PI / (n_points - 1) as f64;
+    let p_dist = PI / (n_points.max(2) - 1) as f64;
     let a = *ap;
     let b = *bp;
     let angle: f64 = 0.0;
-- 
2.43.0


From b41cd26782370f63b7378579137b0a38731a70f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 40/62] fix: ellipse created half an ellipse only

---
 src/factory_2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index 6f56fa1..8b70a56 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -99,7 +99,7 @@ where
     P: IsBuildable2D,
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = PI / (n_points.max(2) - 1) as f64;
+    let p_dist = 2.0 * PI / (n_points.max(2) - 1) as f64;
     let a = *ap;
     let b = *bp;
     let angle: f64 = 0.0;
-- 
2.43.0


From cf192cede200fb79c574fb5b3e039a9294503c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 41/62] fix: BoxUnaligned3D corners for collision checks were
 twice as far away as its size

---
 src/box_unaligned_3d.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/box_unaligned_3d.rs b/src/box_unaligned_3d.rs
index 7f4f2f1..c219590 100644
--- a/src/box_unaligned_3d.rs
+++ b/src/box_unaligned_3d.rs
@@ -68,15 +68,15 @@ impl BoxUnaligned3D {
         }
     }
     fn d_x(&self) -> Point3D {
-        let d = *self.size[0];
+        let d = 0.5 * *self.size[0];
         Point3D::new_from(&self.x_dir()) * d
     }
     fn d_y(&self) -> Point3D {
-        let d = *self.size[1];
+        let d = 0.5 * *self.size[1];
         Point3D::new_from(&self.y_dir) * d
     }
     fn d_z(&self) -> Point3D {
-        let d = *self.size[2];
+        let d = 0.5 * *self.size[2];
         Point3D::new_from(&self.z_dir) * d
     }
     pub fn x_dir(&self) -> Norm3D {
-- 
2.43.0


From a5c62699af9bec69b74d81bdf1f94c32d9506aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 42/62] fix: BoxUnaligned3D bounding box did not contain the
 corners of rotated boxes

---
 src/box_unaligned_3d.rs | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/src/box_unaligned_3d.rs b/src/box_unaligned_3d.rs
index c219590..6c86a84 100644
--- a/src/box_unaligned_3d.rs
+++ b/src/box_unaligned_3d.rs
@@ -129,27 +129,10 @@ impl IsSATObject for BoxUnaligned3D {
 
 impl HasBoundingBox3D for BoxUnaligned3D {
     fn bounding_box(&self) -> BoundingBox3D {
-        let mut max_size = self.size[0];
-        if self.size[1] > max_size {
-            max_size = self.size[1]
-        }
-        if self.size[2] > max_size {
-            max_size = self.size[2]
-        }
+        let mut corners = Vec::with_capacity(8);
+        self.for_each_point(&mut |p| corners.push(p.clone()));
 
-        BoundingBox3D::new(
-            &Point3D::new(
-                self.center.x() - 0.5 * *max_size,
-                self.center.y() - 0.5 * *max_size,
-                self.center.z() - 0.5 * *max_size,
-            ),
-            &Point3D::new(
-                self.center.x() + 0.5 * *max_size,
-                self.center.y() + 0.5 * *max_size,
-                self.center.z() + 0.5 * *max_size,
-            ),
-        )
-        .unwrap() //@todo unwrap, see above
+        BoundingBox3D::from_iterator(&corners).unwrap() //@todo unwrap, see above
     }
 }
 
-- 
2.43.0


From 3da7f0138b2c92993daf1b5fe0bef3e770823119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 43/62] fix: FilterAnyRandomAccessible never filtered anything

---
 src/filter_any_random_accessible.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_any_random_accessible.rs b/src/filter_any_random_accessible.rs
index 601593c..bc34d72 100644
--- a/src/filter_any_random_accessible.rs
+++ b/src/filter_any_random_accessible.rs
@@ -41,6 +41,7 @@ where
 {
     fn filter(&self, ra: &RA, view: &mut View) {
         let view_initial = view.clone();
+        *view = View::Restricted(Default::default());
         for f in &self.filters {
             let mut view_now = view_initial.clone();
             f.filter(&ra, &mut view_now);
-- 
2.43.0


From 5c42aa5ebc9b5b615554016dc9e2a8d2a7301b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 44/62] fix: inserting at the end of a Vec or VecDeque failed
 unlike for the point clouds

---
 src/impls/vec.rs       | 2 +-
 src/impls/vec_deque.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 5725dc3..41c05e6 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -34,7 +34,7 @@ impl<T> IsRandomAccessible<T> for Vec<T> {
 
 impl<T> IsRandomInsertible<T> for Vec<T> {
     fn insert(&mut self, index: usize, x: T) -> Result<()> {
-        if index >= self.len() {
+        if index > self.len() {
             return Err(ErrorKind::IndexOutOfBounds);
         }
         self.insert(index, x);
diff --git a/src/impls/vec_deque.rs b/src/impls/vec_deque.rs
index 0fbb0c3..2cb9216 100644
--- a/src/impls/vec_deque.rs
+++ b/src/impls/vec_deque.rs
@@ -36,7 +36,7 @@ impl<T> IsRandomAccessible<T> for VecDeque<T> {
 
 impl<T> IsRandomInsertible<T> for VecDeque<T> {
     fn insert(&mut self, index: usize, x: T) -> Result<()> {
-        if index >= self.len() {
+        if index > self.len() {
             return Err(ErrorKind::IndexOutOfBounds);
         }
         self.insert(index, x);
-- 
2.43.0


From c4c9d3f22838aa567ff8b41f4b8003174f94e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 45/62] fix: rad_to was NaN for some (anti)parallel directions

---
 src/is_3d.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/is_3d.rs b/src/is_3d.rs
index 9ea6219..7e09383 100644
--- a/src/is_3d.rs
+++ b/src/is_3d.rs
@@ -71,7 +71,9 @@ pub trait Is3D: IsND {
         if *self.abs() == 0.0 || *other.abs() == 0.0 {
             return Err(ErrorKind::CantCalculateAngleIfZeroLength);
         }
-        Ok(Rad((self.dot(other) / *(self.abs() * other.abs())).acos()))
+        // rounding can lead to values slightly outside of the domain of acos
+        let cos = self.dot(other) / *(self.abs() * other.abs());
+        Ok(Rad(cos.max(-1.0).min(1.0).acos()))
     }
     /// Transforms the position in a "x y z" string. E.g. "3.72 5.99 1.01"
     fn to_str(&self) -> String {
-- 
2.43.0


From b61ca8308df42b8ece7d458f1bb83823a3f1eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 46/62] fix: CompressedPointCloud3D could not compress to u64

---
 src/compressed_point_cloud_3d.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/compressed_point_cloud_3d.rs b/src/compressed_point_cloud_3d.rs
index 16af708..2ed9fe3 100644
--- a/src/compressed_point_cloud_3d.rs
+++ b/src/compressed_point_cloud_3d.rs
@@ -65,6 +65,15 @@ where
         let unitsizey = rangey / maxval;
         let unitsizez = rangez / maxval;
 
+        // maxval might be rounded up, so that it can't be converted back
+        let to_units = |x: f64| {
+            if x >= maxval {
+                Ok(T::max_value())
+            } else {
+                T::from(x).ok_or(ErrorKind::NumberConversionError)
+            }
+        };
+
         let mut data = Vec::new();
 
         for p in &pc.data {
@@ -72,9 +81,9 @@ where
             let disty = p.y() - bb.min_p().y;
             let distz = p.z() - bb.min_p().z;
 
-            let unitsx = T::from(distx / unitsizex).ok_or(ErrorKind::NumberConversionError)?;
-            let unitsy = T::from(disty / unitsizey).ok_or(ErrorKind::NumberConversionError)?;
-            let unitsz = T::from(distz / unitsizez).ok_or(ErrorKind::NumberConversionError)?;
+            let unitsx = to_units(distx / unitsizex)?;
+            let unitsy = to_units(disty / unitsizey)?;
+            let unitsz = to_units(distz / unitsizez)?;
 
             data.push(CompressedPoint3D {
                 unitsx,
-- 
2.43.0


From 1b5bb1575cc7cc34c66e8af1d8c30bdb2ceed396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 47/62] fix: PointCloud3Df32 had no bounding box for two points
 unlike the other clouds

---
 src/point_cloud_3d_f32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/point_cloud_3d_f32.rs b/src/point_cloud_3d_f32.rs
index e19b69f..6f5919f 100644
--- a/src/point_cloud_3d_f32.rs
+++ b/src/point_cloud_3d_f32.rs
@@ -133,7 +133,7 @@ where
         let d = &self.data;
         let n_p = d.len() / 3;
 
-        if n_p <= 2 {
+        if n_p < 2 {
             return None;
         }
 
-- 
2.43.0


From 0ebe022c32c3cc8f1d67ddc9dbe72d1b4b4ae1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 48/62] fix: FilterDirectionField2D compared the angle of the
 line between the directions instead of the angle between them

---
 src/filter_direction_field_2d.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_direction_field_2d.rs b/src/filter_direction_field_2d.rs
index 244025e..98c016b 100644
--- a/src/filter_direction_field_2d.rs
+++ b/src/filter_direction_field_2d.rs
@@ -52,6 +52,8 @@ where
 {
     fn is_allowed(&self, pn: &(P, N)) -> bool {
         let expected = self.field.direction_at(&pn.0);
-        expected.rad_to(&pn.1) <= self.eps
+        // rad_to would be the angle of the line connecting both
+        let angle = Rad(expected.cross(&pn.1).abs().atan2(expected.dot(&pn.1)));
+        angle <= self.eps
     }
 }
-- 
2.43.0


From 23e1e928bf4c9bbb1168c004036217680460d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 49/62] fix: .obj records that are indented or followed by a
 tab were silently skipped

---
 src/io/obj.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index 568f88f..32ff141 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -77,7 +77,7 @@ where
         }
         loop {
             let line = match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
-                Ok(Some(line)) => line,
+                Ok(Some(line)) => trim_start(line),
                 Ok(None) => break,
                 Err(e) => {
                     self.is_done = true;
@@ -86,7 +86,7 @@ where
             };
             self.i_line += 1;
 
-            if line.starts_with(b"v ") {
+            if is_record(line, b'v') {
                 return Some(fetch_vertex(line).line(self.i_line, line).map_err(|e| {
                     self.is_done = true;
                     e
@@ -151,7 +151,7 @@ where
         }
         loop {
             let line = match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
-                Ok(Some(line)) => line,
+                Ok(Some(line)) => trim_start(line),
                 Ok(None) => break,
                 Err(e) => {
                     self.is_done = true;
@@ -160,7 +160,7 @@ where
             };
             self.i_line += 1;
 
-            if line.starts_with(b"v ") {
+            if is_record(line, b'v') {
                 return Some(
                     fetch_vertex(line)
                         .map(|x| FaceData::Data(x))
@@ -170,7 +170,7 @@ where
                             e
                         }),
                 );
-            } else if line.starts_with(b"f ") {
+            } else if is_record(line, b'f') {
                 return Some(
                     fetch_face(line)
                         .map(|x| FaceData::Face(x))
@@ -278,6 +278,14 @@ impl From<ioError> for ObjError {
 
 //------------------------------------------------------------------------------
 
+#[inline(always)]
+fn is_record(line: &[u8], keyword: u8) -> bool {
+    match line {
+        [first, b' ', ..] | [first, b'\t', ..] => *first == keyword,
+        _ => false,
+    }
+}
+
 #[inline(always)]
 fn fetch_vertex<P>(line: &[u8]) -> ObjResult<P>
 where
-- 
2.43.0


From 31bb97b37a628e644d9cef067ceaeb6e7d2c5ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 50/62] fix: .obj faces with more than three vertices were
 silently cut to a triangle

---
 src/io/obj.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index 32ff141..03eadad 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -330,6 +330,12 @@ fn fetch_face(line: &[u8]) -> ObjResult<[usize; 3]> {
     tmp = words.next().ok_or(ObjError::Face)?;
     let c: usize = from_ascii(until_bytes(tmp, b'/')).ok_or(ObjError::Face)?;
 
+    // only triangles are supported, don't cut others down to their first three vertices
+    match words.next() {
+        Some(word) if !word.starts_with(b"#") => return Err(ObjError::Face),
+        _ => (),
+    }
+
     //obj indexing starts at 1
     Ok([
         a.checked_sub(1).ok_or(ObjError::Face)?,
-- 
2.43.0


From bc1d18642e272d16914908896c7cebd691e0117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 51/62] fix: .gcode commands with a comment directly behind a
 value could not be loaded

---
 src/io/gcode.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index b27d3da..6d044c9 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -222,7 +222,7 @@ fn command(line: &[u8]) -> Option<[Option<f64>; 3]> {
     let mut x = None;
     let mut y = None;
     let mut z = None;
-    let words = line.split(|x| *x == b' ');
+    let words = until_bytes(line, b';').split(|x| *x == b' ');
 
     for word in words {
         if n_found == 3 {
@@ -235,10 +235,6 @@ fn command(line: &[u8]) -> Option<[Option<f64>; 3]> {
             continue;
         }
 
-        if word[0] == b';' {
-            break;
-        }
-
         if n < 2 {
             continue;
         }
-- 
2.43.0


From 815d67a9091d398971381bfd8238079336373961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 52/62] fix: .gcode commands that are indented or separated by
 tabs were silently skipped

---
 src/io/gcode.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index 6d044c9..7a92fdf 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -87,7 +87,7 @@ where
         }
         loop {
             let line = match fetch_line_opt(&mut self.read, &mut self.line_buffer) {
-                Ok(Some(line)) => line,
+                Ok(Some(line)) => trim_start(line),
                 Ok(None) => break,
                 Err(e) => {
                     self.is_done = true;
@@ -97,7 +97,9 @@ where
             self.i_line += 1;
 
             if line.len() >= 3 && line[0] == b'G' {
-                if line[2] == b' ' && (line[1] == b'1' || line[1] == b'2' || line[1] == b'3') {
+                if (line[2] == b' ' || line[2] == b'\t')
+                    && (line[1] == b'1' || line[1] == b'2' || line[1] == b'3')
+                {
                     // Move according to absolute/relative
                     let mut any_changed = false;
                     match command(&line[3..])
@@ -138,7 +140,8 @@ where
                             }
                         }
                     }
-                } else if line[1] == b'9' && (line.len() == 3 || line[3] == b' ' || line[3] == b';')
+                } else if line[1] == b'9'
+                    && (line.len() == 3 || line[3] == b' ' || line[3] == b'\t' || line[3] == b';')
                 {
                     // G9x
                     if line[2] == b'0' {
@@ -222,7 +225,7 @@ fn command(line: &[u8]) -> Option<[Option<f64>; 3]> {
     let mut x = None;
     let mut y = None;
     let mut z = None;
-    let words = until_bytes(line, b';').split(|x| *x == b' ');
+    let words = to_words_skip_empty(until_bytes(line, b';'));
 
     for word in words {
         if n_found == 3 {
-- 
2.43.0


From 388b38459ac7c3b751d88d2df5c1f58808bc72ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 53/62] fix: .off counts on the same line as the keyword were
 skipped

---
 src/io/off.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/io/off.rs b/src/io/off.rs
index 0c841c5..5169b09 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -93,17 +93,20 @@ where
             };
             self.i_line += 1;
 
-            if !self.off_seen && line.starts_with(b"OFF") {
+            // the counts might follow on the same line
+            let content = if !self.off_seen && line.starts_with(b"OFF") {
                 self.off_seen = true;
-                continue;
-            }
+                trim_start(&line[3..])
+            } else {
+                line
+            };
 
-            if line.is_empty() || line.starts_with(b"#") {
+            if content.is_empty() || content.starts_with(b"#") {
                 continue;
             }
 
             if self.n_vertices.is_none() {
-                let mut words = to_words_skip_empty(line);
+                let mut words = to_words_skip_empty(content);
                 match words
                     .next()
                     .and_then(|word| from_ascii(word))
@@ -259,17 +262,20 @@ where
             };
             self.i_line += 1;
 
-            if !self.off_seen && line.starts_with(b"OFF") {
+            // the counts might follow on the same line
+            let content = if !self.off_seen && line.starts_with(b"OFF") {
                 self.off_seen = true;
-                continue;
-            }
+                trim_start(&line[3..])
+            } else {
+                line
+            };
 
-            if line.is_empty() || line.starts_with(b"#") {
+            if content.is_empty() || content.starts_with(b"#") {
                 continue;
             }
 
             if self.counts.is_none() {
-                match Self::fetch_counts(line) {
+                match Self::fetch_counts(content) {
                     Ok(counts) => {
                         self.counts = Some(counts);
                         return Some(Ok(FaceDataReserve::ReserveDataFaces(counts[0], counts[1])));
-- 
2.43.0


From 9ec71caec1dab702664afb6cfd4cd13fa7e7f63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 54/62] fix: .ply files with the faces ahead of the vertices
 were read in the wrong order

---
 src/io/ply/header.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index eeb92af..b2bd2fb 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -116,6 +116,10 @@ where
         match opt_n_faces {
             None => {
                 if line.starts_with(b"element face") {
+                    if opt_n_vertices.is_none() {
+                        // faces ahead of the vertices can't be read
+                        return Err(PlyError::FaceElement).line(*i_line, line);
+                    }
                     read_state = HeaderReadState::Face;
                     let mut words = to_words_skip_empty(line);
                     opt_n_faces = Some(
-- 
2.43.0


From c9e76d8655ae93bba599d2ea5e5203ca29d62d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 55/62] fix: .ply faces with further lists were read as garbage

---
 src/io/ply/header.rs             | 8 ++++++++
 src/io/ply/iterators_internal.rs | 8 ++++++++
 src/io/ply/types.rs              | 2 ++
 3 files changed, 18 insertions(+)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index b2bd2fb..56469b8 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -62,6 +62,7 @@ where
     let mut opt_face_index_type = None;
     let mut face_before = BytesWords::default();
     let mut face_after = BytesWords::default();
+    let mut has_unsupported_list = false;
 
     while let Some(line) = fetch_line_opt(read, line_buffer)
         .map_err(|e| e.into())
@@ -204,6 +205,12 @@ where
 
                             opt_face_count_type = Some(t_count);
                             opt_face_index_type = Some(t_index);
+                        } else {
+                            // the rest of a line can be ignored, the rest of binary data can't
+                            match opt_format {
+                                Some(Format::Ascii) if opt_face_count_type.is_some() => (),
+                                _ => has_unsupported_list = true,
+                            }
                         }
                     } else {
                         let mut words = to_words_skip_empty(line);
@@ -269,6 +276,7 @@ where
                             format: FaceFormat {
                                 before: face_before,
                                 after: face_after,
+                                has_unsupported_list,
                                 count: face_count_type,
                                 index: face_index_type,
                             },
diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index b84345a..25e5874 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -483,6 +483,10 @@ where
             if let Some(line) = opt_line {
                 self.i_line += 1;
                 self.current += 1;
+                if self.header.face.format.has_unsupported_list {
+                    self.is_done = true;
+                    return Some(Err(PlyError::FaceStructure).line(self.i_line, line));
+                }
                 return Some(
                     collect_index_line(&line, self.header.face.format.before.words)
                         .ok_or(PlyError::FaceStructure)
@@ -538,6 +542,10 @@ where
 
     #[inline(always)]
     fn fetch_one(&mut self) -> PlyResult<[usize; 3]> {
+        if self.header.face.format.has_unsupported_list {
+            return Err(PlyError::FaceStructure);
+        }
+
         skip_bytes(&mut self.read, self.header.face.format.before.bytes)?;
 
         let element_count = read_face_type::<BR, _>(&mut self.read, self.header.face.format.count)?;
diff --git a/src/io/ply/types.rs b/src/io/ply/types.rs
index 9cb21e9..34300ab 100644
--- a/src/io/ply/types.rs
+++ b/src/io/ply/types.rs
@@ -206,6 +206,8 @@ pub struct FaceFormat {
     pub index: FaceType,
     pub before: BytesWords,
     pub after: BytesWords,
+    /// whether there's a list of unknown length which would have to be skipped
+    pub has_unsupported_list: bool,
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 1e9d2c216aab43a205d255c9aa38232be1d3d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 56/62] fix: .ptx transformations were applied transposed, so
 that translations were lost

---
 src/io/ptx.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index dec2745..b4d843f 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -145,11 +145,12 @@ where
             .line(self.i_line, line)?;
 
         self.transformation = Matrix4 {
+            // row vectors within the file: its last row is the translation
             data: [
-                [m11, m12, m13, m14],
-                [m21, m22, m23, m24],
-                [m31, m32, m33, m34],
-                [m41, m42, m43, m44],
+                [m11, m21, m31, m41],
+                [m12, m22, m32, m42],
+                [m13, m23, m33, m43],
+                [m14, m24, m34, m44],
             ],
         };
 
-- 
2.43.0


From 74d8d31211f3682bfdc90ae0b3d103bad46b648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:06 +0000
Subject: [PATCH 57/62] fix: .stl vertices with a damaged keyword were accepted

---
 src/io/stl.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index 01e4c67..b3d47e0 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -593,8 +593,9 @@ where
 {
     let mut words = to_words_skip_empty(line);
 
-    // skip "vertex"
-    words.next()?;
+    if words.next()? != b"vertex" {
+        return None;
+    }
 
     let x = from_ascii(words.next()?)?;
     let y = from_ascii(words.next()?)?;
-- 
2.43.0


From f79a5daa515abfcf53bd826712ccb61bfb500a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 58/62] fix: vertices added to a SearchableMesh were unknown to
 its queries

---
 src/half_edge.rs       | 8 ++++++++
 src/searchable_mesh.rs | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index c4e695d..2402830 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -220,6 +220,14 @@ where
         }
         Ok(())
     }
+
+    /// Ensures that there are at least n vertices, new ones aren't used by any edge
+    pub(crate) fn ensure_n_vertices(&mut self, n: usize) {
+        let n_edges = self.tails.len();
+        while self.vertices_start_edges.len() < n {
+            self.vertices_start_edges.push(IC::with_support_for(n_edges));
+        }
+    }
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/searchable_mesh.rs b/src/searchable_mesh.rs
index 81e0485..e40bfdd 100644
--- a/src/searchable_mesh.rs
+++ b/src/searchable_mesh.rs
@@ -105,7 +105,9 @@ where
     IC: IsIndexContainer,
 {
     fn add_vertex(&mut self, vertex: T) -> VId {
-        self.mesh.add_vertex(vertex)
+        let id = self.mesh.add_vertex(vertex);
+        self.he.ensure_n_vertices(self.mesh.num_vertices());
+        id
     }
 
     fn change_vertex(&mut self, vid: VId, vertex: T) -> Result<()> {
-- 
2.43.0


From 6b514d52521cf60953d6a8fe50663d5617b50eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:10 +0000
Subject: [PATCH 59/62] fix: Ord of points, directions, boxes and balls agrees
 with their equality

---
 src/box_2d.rs   | 12 +-----------
 src/box_3d.rs   | 15 +--------------
 src/circle.rs   |  9 +--------
 src/norm_2d.rs  |  5 +----
 src/norm_3d.rs  |  5 +----
 src/point_2d.rs |  5 +----
 src/point_3d.rs |  5 +----
 src/sphere.rs   |  9 +--------
 8 files changed, 8 insertions(+), 57 deletions(-)

diff --git a/src/box_2d.rs b/src/box_2d.rs
index ff77d59..6afb28c 100644
--- a/src/box_2d.rs
+++ b/src/box_2d.rs
@@ -63,17 +63,7 @@ impl Eq for Box2D {}
 
 impl Ord for Box2D {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point2D::default();
-        match sqr_dist_2d(&origin, &self.center).partial_cmp(&sqr_dist_2d(&origin, &other.center)) {
-            Some(x) => x,
-            None => match self.size_x.partial_cmp(&other.size_x) {
-                Some(x) => x,
-                None => self
-                    .size_y
-                    .partial_cmp(&other.size_y)
-                    .unwrap_or(Ordering::Equal),
-            },
-        }
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
diff --git a/src/box_3d.rs b/src/box_3d.rs
index 6039f4a..8fe0353 100644
--- a/src/box_3d.rs
+++ b/src/box_3d.rs
@@ -66,20 +66,7 @@ impl Eq for Box3D {}
 
 impl Ord for Box3D {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point3D::default();
-        match sqr_dist_3d(&origin, &self.center).partial_cmp(&sqr_dist_3d(&origin, &other.center)) {
-            Some(x) => x,
-            None => match self.size_x.partial_cmp(&other.size_x) {
-                Some(x) => x,
-                None => match self.size_y.partial_cmp(&other.size_y) {
-                    Some(x) => x,
-                    None => self
-                        .size_z
-                        .partial_cmp(&other.size_z)
-                        .unwrap_or(Ordering::Equal),
-                },
-            },
-        }
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
diff --git a/src/circle.rs b/src/circle.rs
index 9d119d8..0bb0f6b 100644
--- a/src/circle.rs
+++ b/src/circle.rs
@@ -39,14 +39,7 @@ impl Eq for Circle {}
 
 impl Ord for Circle {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point2D::default();
-        match sqr_dist_2d(&origin, &self.center).partial_cmp(&sqr_dist_2d(&origin, &other.center)) {
-            Some(x) => x,
-            None => self
-                .radius
-                .partial_cmp(&other.radius)
-                .unwrap_or(Ordering::Equal),
-        }
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
diff --git a/src/norm_2d.rs b/src/norm_2d.rs
index b1dce01..02f94ae 100644
--- a/src/norm_2d.rs
+++ b/src/norm_2d.rs
@@ -43,10 +43,7 @@ impl Eq for Norm2D {}
 
 impl Ord for Norm2D {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point2D::default();
-        sqr_dist_2d(&origin, self)
-            .partial_cmp(&sqr_dist_2d(&origin, other))
-            .unwrap_or(Ordering::Equal)
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
diff --git a/src/norm_3d.rs b/src/norm_3d.rs
index 3333ce2..218ca3c 100644
--- a/src/norm_3d.rs
+++ b/src/norm_3d.rs
@@ -44,10 +44,7 @@ impl Eq for Norm3D {}
 
 impl Ord for Norm3D {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point3D::default();
-        sqr_dist_3d(&origin, self)
-            .partial_cmp(&sqr_dist_3d(&origin, other))
-            .unwrap_or(Ordering::Equal)
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
diff --git a/src/point_2d.rs b/src/point_2d.rs
index f4fd1a1..d9d658c 100644
--- a/src/point_2d.rs
+++ b/src/point_2d.rs
@@ -50,10 +50,7 @@ impl Eq for Point2D {}
 
 impl Ord for Point2D {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point2D::default();
-        sqr_dist_2d(&origin, self)
-            .partial_cmp(&sqr_dist_2d(&origin, other))
-            .unwrap_or(Ordering::Equal)
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
diff --git a/src/point_3d.rs b/src/point_3d.rs
index 95b0488..19dab4f 100644
--- a/src/point_3d.rs
+++ b/src/point_3d.rs
@@ -52,10 +52,7 @@ impl Eq for Point3D {}
 
 impl Ord for Point3D {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point3D::default();
-        sqr_dist_3d(&origin, self)
-            .partial_cmp(&sqr_dist_3d(&origin, other))
-            .unwrap_or(Ordering::Equal)
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
diff --git a/src/sphere.rs b/src/sphere.rs
index 834976f..df5eb53 100644
--- a/src/sphere.rs
+++ b/src/sphere.rs
@@ -39,14 +39,7 @@ impl Eq for Sphere {}
 
 impl Ord for Sphere {
     fn cmp(&self, other: &Self) -> Ordering {
-        let origin = Point3D::default();
-        match sqr_dist_3d(&origin, &self.center).partial_cmp(&sqr_dist_3d(&origin, &other.center)) {
-            Some(x) => x,
-            None => self
-                .radius
-                .partial_cmp(&other.radius)
-                .unwrap_or(Ordering::Equal),
-        }
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
 
-- 
2.43.0


From 70b102d818c7201793b0ebef31b322b5d1df71f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:09 +0000
Subject: [PATCH 60/62] fix: douglas_peucker_2d no longer recurses without end
 for a negative epsilon

---
 src/douglas_peucker_2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/douglas_peucker_2d.rs b/src/douglas_peucker_2d.rs
index f1f291d..3e3c18a 100644
--- a/src/douglas_peucker_2d.rs
+++ b/src/douglas_peucker_2d.rs
@@ -47,7 +47,7 @@ where
         }
     }
 
-    if dmax > epsilon {
+    if index > 0 && dmax > epsilon {
         let mut pc1 = pc.clone();
         let mut pc2 = pc.clone();
 
-- 
2.43.0


From 77615f52a9eb5ed7f7479f6f2037232e2548b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:55 +0000
Subject: [PATCH 61/62] fix: AABBTree construction ends when no axis separates
 the data any more

---
 src/aa_bb_tree_2d.rs | 23 ++++++++++++++++++++---
 src/aa_bb_tree_3d.rs | 23 ++++++++++++++++++++---
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/aa_bb_tree_2d.rs b/src/aa_bb_tree_2d.rs
index d8400a3..00b873b 100644
--- a/src/aa_bb_tree_2d.rs
+++ b/src/aa_bb_tree_2d.rs
@@ -47,7 +47,7 @@ where
     HB: HasBoundingBox2D + Clone,
 {
     pub fn new(data: Vec<HB>, maxdepth: usize, allowed_bucket_size: usize) -> Self {
-        Self::new_rec(data, maxdepth, allowed_bucket_size, 0)
+        Self::new_rec(data, maxdepth, allowed_bucket_size, 0, 0)
     }
 
     pub fn any<'a>(&'a self, f: &dyn Fn(&HB) -> bool) -> bool {
@@ -90,7 +90,14 @@ where
         }
     }
 
-    fn new_rec(data: Vec<HB>, maxdepth: usize, allowed_bucket_size: usize, depth: usize) -> Self {
+    // n_useless is the number of directly preceding splits that did not separate any of the data
+    fn new_rec(
+        data: Vec<HB>,
+        maxdepth: usize,
+        allowed_bucket_size: usize,
+        depth: usize,
+        n_useless: usize,
+    ) -> Self {
         match data.len() {
             0 => AABBTree2D::Empty,
             1 => {
@@ -98,7 +105,8 @@ where
                 AABBTree2D::Leaf(AABBTree2DLeaf::new(data, bb))
             }
             _ => {
-                if depth >= maxdepth || data.len() <= allowed_bucket_size {
+                // further splits would repeat forever once none of the axes separated anything
+                if depth >= maxdepth || data.len() <= allowed_bucket_size || n_useless >= 2 {
                     let bb = Self::bb_of(&data).unwrap(); //unwrap fine, since data non empty and with valid bbs (see new)
                     AABBTree2D::Leaf(AABBTree2DLeaf::new(data, bb))
                 } else {
@@ -120,17 +128,26 @@ where
                     if (dleft.len() == dright.len()) && dleft.len() == data.len() {
                         AABBTree2D::Leaf(AABBTree2DLeaf::new(data, bb))
                     } else {
+                        let n_useless_of = |x: &Vec<HB>| match x.len() == data.len() {
+                            true => n_useless + 1,
+                            false => 0,
+                        };
+                        let (useless_left, useless_right) =
+                            (n_useless_of(&dleft), n_useless_of(&dright));
+
                         let left = Box::new(Self::new_rec(
                             dleft,
                             maxdepth,
                             allowed_bucket_size,
                             depth + 1,
+                            useless_left,
                         ));
                         let right = Box::new(Self::new_rec(
                             dright,
                             maxdepth,
                             allowed_bucket_size,
                             depth + 1,
+                            useless_right,
                         ));
 
                         AABBTree2D::Branch(AABBTree2DBranch::new(left, right, bb))
diff --git a/src/aa_bb_tree_3d.rs b/src/aa_bb_tree_3d.rs
index d34a15b..a2a540a 100644
--- a/src/aa_bb_tree_3d.rs
+++ b/src/aa_bb_tree_3d.rs
@@ -47,7 +47,7 @@ where
     HB: HasBoundingBox3D + Clone,
 {
     pub fn new(data: Vec<HB>, maxdepth: usize, allowed_bucket_size: usize) -> Self {
-        Self::new_rec(data, maxdepth, allowed_bucket_size, 0)
+        Self::new_rec(data, maxdepth, allowed_bucket_size, 0, 0)
     }
 
     pub fn any<'a>(&'a self, f: &dyn Fn(&HB) -> bool) -> bool {
@@ -106,7 +106,14 @@ where
         }
     }
 
-    fn new_rec(data: Vec<HB>, maxdepth: usize, allowed_bucket_size: usize, depth: usize) -> Self {
+    // n_useless is the number of directly preceding splits that did not separate any of the data
+    fn new_rec(
+        data: Vec<HB>,
+        maxdepth: usize,
+        allowed_bucket_size: usize,
+        depth: usize,
+        n_useless: usize,
+    ) -> Self {
         match data.len() {
             0 => AABBTree3D::Empty,
             1 => {
@@ -114,7 +121,8 @@ where
                 AABBTree3D::Leaf(AABBTree3DLeaf::new(data, bb))
             }
             _ => {
-                if depth >= maxdepth || data.len() <= allowed_bucket_size {
+                // further splits would repeat forever once none of the axes separated anything
+                if depth >= maxdepth || data.len() <= allowed_bucket_size || n_useless >= 3 {
                     let bb = Self::bb_of(&data).unwrap(); //unwrap fine, since data non empty and with valid bbs (see new)
                     AABBTree3D::Leaf(AABBTree3DLeaf::new(data, bb))
                 } else {
@@ -140,17 +148,26 @@ where
                     if (dleft.len() == dright.len()) && dleft.len() == data.len() {
                         AABBTree3D::Leaf(AABBTree3DLeaf::new(data, bb))
                     } else {
+                        let n_useless_of = |x: &Vec<HB>| match x.len() == data.len() {
+                            true => n_useless + 1,
+                            false => 0,
+                        };
+                        let (useless_left, useless_right) =
+                            (n_useless_of(&dleft), n_useless_of(&dright));
+
                         let left = Box::new(Self::new_rec(
                             dleft,
                             maxdepth,
                             allowed_bucket_size,
                             depth + 1,
+                            useless_left,
                         ));
                         let right = Box::new(Self::new_rec(
                             dright,
                             maxdepth,
                             allowed_bucket_size,
                             depth + 1,
+                            useless_right,
                         ));
 
                         AABBTree3D::Branch(AABBTree3DBranch::new(left, right, bb))
-- 
2.43.0


From d29e75a7c813e8b0dddc155934b540415e6fc6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:58 +0000
Subject: [PATCH 62/62] fix: Cluster delivers no candidates for queries in
 front of its data

---
 src/cluster.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cluster.rs b/src/cluster.rs
index c07e744..8fac2e9 100644
--- a/src/cluster.rs
+++ b/src/cluster.rs
@@ -94,8 +94,16 @@ where
     }
 
     pub fn for_each_candidate<'a>(&'a self, x: f64, y: f64, f: &mut dyn FnMut(&HB)) {
-        let c_x = ((x - self.start_x) / self.incr_x) as u16;
-        let c_y = ((y - self.start_y) / self.incr_y) as u16;
+        let d_x = (x - self.start_x) / self.incr_x;
+        let d_y = (y - self.start_y) / self.incr_y;
+
+        // there are no cells outside of the data
+        let limit = u16::MAX as f64 + 1.0;
+        if !(d_x >= 0.0 && d_x < limit && d_y >= 0.0 && d_y < limit) {
+            return;
+        }
+
+        let (c_x, c_y) = (d_x as u16, d_y as u16);
 
         if let Some(is) = self.map.get(&(c_x, c_y)) {
             for i in is {
-- 
2.43.0

