From ac85207be9ce540d1179a223d0b5366daddc28a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 01/16] fix: a plain face turn of a big cube turns the outer
 layer only

Movable<AxisMove> for Cube4..Cube7 widened the turn to the deepest layer,
so R acted as Rw (or 3Rw).
---
 barbarosa/src/cube_n/moves/wide.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/wide.rs b/barbarosa/src/cube_n/moves/wide.rs
index 45ca0bf..aae577e 100644
--- a/barbarosa/src/cube_n/moves/wide.rs
+++ b/barbarosa/src/cube_n/moves/wide.rs
@@ -135,7 +135,7 @@ macro_rules! impl_movable_wide_move_inductively {
     ($cube:ty, $max_width:literal, 0) => {
         impl crate::generic::Movable<crate::cube_n::AxisMove> for $cube {
             fn apply(&mut self, m: &crate::cube_n::AxisMove) {
-                <$cube as crate::generic::Movable<WideAxisMove<$max_width>>>::apply(self, &m.clone().widen($max_width).unwrap());
+                <$cube as crate::generic::Movable<WideAxisMove<$max_width>>>::apply(self, &m.clone().widen(0).unwrap());
             }
         }
     };
-- 
2.43.0


From 0f35b8e33dc946508e45022c774f843d9edf3469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 02/16] fix: centre edges follow the depth of the turn, not its
 maximum

A centre edge on an adjacent face moved whenever its depth was within the
capacity of the move type, even if the turn did not reach its layer.
---
 barbarosa/src/cube_n/pieces/center/edge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/pieces/center/edge.rs b/barbarosa/src/cube_n/pieces/center/edge.rs
index ea2e315..25985c9 100644
--- a/barbarosa/src/cube_n/pieces/center/edge.rs
+++ b/barbarosa/src/cube_n/pieces/center/edge.rs
@@ -133,7 +133,7 @@ impl DepthPiece for CenterEdge {
             return true;
         }
 
-        if m.face() == &self.side_face() && normal_depth <= M {
+        if m.face() == &self.side_face() && normal_depth <= m.depth() {
             return true;
         }
 
-- 
2.43.0


From cd8ad0f8d43b048b70b62187dac28743b61188a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 03/16] fix: a centre corner is solved on its own face only

Only the direction along the centre's axis was compared, so a centre from R
counted as solved on U or F.
---
 barbarosa/src/cube_n/pieces/center/corner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/barbarosa/src/cube_n/pieces/center/corner.rs b/barbarosa/src/cube_n/pieces/center/corner.rs
index 836a345..97e4cb0 100644
--- a/barbarosa/src/cube_n/pieces/center/corner.rs
+++ b/barbarosa/src/cube_n/pieces/center/corner.rs
@@ -30,7 +30,7 @@ impl generic::Piece for CenterCorner {
     }
 
     fn is_solved(&self, original_pos: &Self::Position) -> bool {
-        self.position[self.axis] == original_pos.position[original_pos.axis]
+        CenterCorner::is_solved(self, original_pos)
     }
 }
 
@@ -95,7 +95,7 @@ impl CenterCorner {
 
     /// Determines whether the [`CenterCorner`] is solved.
     pub fn is_solved(&self, original: &CenterCorner) -> bool {
-        self.position[self.axis] == original.position[original.axis]
+        self.axis == original.axis && self.position[self.axis] == original.position[original.axis]
     }
 }
 
-- 
2.43.0


From d8bc0a0a6a2bf2e3f1a24702679b1a316f1fb0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 04/16] fix: the 5x5x5 has wings

Cube5 had no wing pieces, so states differing in them compared equal and
looked solved.
---
 barbarosa/src/cube_n/cube5/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index e765cd0..6c2696e 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -8,6 +8,7 @@ use super::{
         center::{corner::CenterCornerSet, edge::CenterEdgeSet},
         corner::CornerSet,
         edge::EdgeSet,
+        wing::WingSet,
     },
     CubeN, WideAxisMove,
 };
@@ -19,6 +20,7 @@ use super::{
 pub struct Cube5 {
     corners: CornerSet,
     edges: EdgeSet,
+    wings: WingSet<1>,
     corner_centers: CenterCornerSet<1>,
     corner_edges: CenterEdgeSet<1>,
 }
@@ -31,6 +33,7 @@ impl generic::Cube for Cube5 {
     const SOLVED: Self = Self {
         corners: CornerSet::SOLVED,
         edges: EdgeSet::SOLVED,
+        wings: WingSet::SOLVED,
         corner_centers: CenterCornerSet::SOLVED,
         corner_edges: CenterEdgeSet::SOLVED,
     };
@@ -40,6 +43,7 @@ impl generic::Movable<WideAxisMove<1>> for Cube5 {
     fn apply(&mut self, m: &WideAxisMove<1>) {
         self.corners.apply(&m.axis_move);
         self.edges.apply(&m.axis_move);
+        self.wings.apply(m);
         self.corner_centers.apply(m);
         self.corner_edges.apply(m);
     }
-- 
2.43.0


From 4160562593eab94d642765ecdc89d42febdf3de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 05/16] fix: the 5x5x5 is solved when every sticker is on its
 own face

Cube5 compared to the solved cube, so swapping identical centre pieces made
it unsolved, unlike on the other big cubes.
---
 barbarosa/src/cube_n/cube5/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index 6c2696e..cedcbc2 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -37,6 +37,17 @@ impl generic::Cube for Cube5 {
         corner_centers: CenterCornerSet::SOLVED,
         corner_edges: CenterEdgeSet::SOLVED,
     };
+
+    fn is_solved(&self) -> bool
+    where
+        Self: 'static,
+    {
+        self.corners.is_solved()
+            && self.edges.is_solved()
+            && self.wings.is_solved()
+            && self.corner_centers.is_solved()
+            && self.corner_edges.is_solved()
+    }
 }
 
 impl generic::Movable<WideAxisMove<1>> for Cube5 {
-- 
2.43.0


From f5bea73f2198c98cf6ae64b56081e39839afb0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 06/16] fix: the rotation that places U takes the faces'
 directions into account

Only the axes were compared, so Orientation::rotations turned the wrong way
when exactly one of the two faces was a negative one.
---
 barbarosa/src/cube_n/orientable/orientation.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/barbarosa/src/cube_n/orientable/orientation.rs b/barbarosa/src/cube_n/orientable/orientation.rs
index a0d39e0..2a8aabb 100644
--- a/barbarosa/src/cube_n/orientable/orientation.rs
+++ b/barbarosa/src/cube_n/orientable/orientation.rs
@@ -47,10 +47,9 @@ fn connecting_rotation_with_face(from: &Face, to: &Face, face: &Face) -> Option<
         return None;
     }
 
-    let amount = match from.axis.get_handedness(&to.axis) {
-        Ok(Direction::Positive) => Amount::Single,
-        Ok(Direction::Negative) => Amount::Inverse,
-        Err(ParallelAxesError::SameAxis(_)) => Amount::Double,
+    let amount = match from.cross(to) {
+        Some(cross_result) => cross_result.direction.neg().into(),
+        None => Amount::Double,
     };
 
     Some(AxisRotation::new(face.axis, amount))
-- 
2.43.0


From 0fbc22da3f154e551a61a4d5faf735309dbc82e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 07/16] fix: Orientation::rotations keeps R in place when only
 U moves

With R at home and U at D it gave z2, which takes R to L.
---
 barbarosa/src/cube_n/orientable/orientation.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/barbarosa/src/cube_n/orientable/orientation.rs b/barbarosa/src/cube_n/orientable/orientation.rs
index 2a8aabb..991a96e 100644
--- a/barbarosa/src/cube_n/orientable/orientation.rs
+++ b/barbarosa/src/cube_n/orientable/orientation.rs
@@ -75,12 +75,7 @@ impl Orientation {
             .map(|rot| Face::U.rotated(rot))
             .unwrap_or(Face::U);
 
-        let r_face = r_rot.as_ref().map(|rot| Face::R.rotated(rot));
-
-        let u_rot = match r_face {
-            Some(r_face) => connecting_rotation_with_face(&new_u, &self.u_face(), &r_face),
-            None => connecting_rotation(&new_u, &self.u_face()),
-        };
+        let u_rot = connecting_rotation_with_face(&new_u, &self.u_face(), &self.r_face);
 
         use std::iter::{empty, once};
         use Either::*;
-- 
2.43.0


From 1001fa39dec9aefa089932f131e6cfa55939bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 08/16] fix: a turn of a held cube turns the face at that place
 in the hand

The move was rotated by the orientation instead of by its inverse, so with
the cube held after x y, R turned the face that R had gone to.
---
 barbarosa/src/cube_n/orientable/mod.rs         |  6 +-----
 barbarosa/src/cube_n/orientable/orientation.rs | 11 +++++++++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/barbarosa/src/cube_n/orientable/mod.rs b/barbarosa/src/cube_n/orientable/mod.rs
index 70fe38a..379bf72 100644
--- a/barbarosa/src/cube_n/orientable/mod.rs
+++ b/barbarosa/src/cube_n/orientable/mod.rs
@@ -55,11 +55,7 @@ where
     Orientable<C>: Movable<ExtendedAxisMove>,
 {
     fn apply(&mut self, m: &M) {
-        let mut m = m.clone();
-
-        for rotation in self.orientation.rotations() {
-            m.rotate(&rotation);
-        }
+        let m = self.orientation.unrotated(m.clone());
 
         self.base_cube.apply(&m);
     }
diff --git a/barbarosa/src/cube_n/orientable/orientation.rs b/barbarosa/src/cube_n/orientable/orientation.rs
index 991a96e..0b1d64f 100644
--- a/barbarosa/src/cube_n/orientable/orientation.rs
+++ b/barbarosa/src/cube_n/orientable/orientation.rs
@@ -87,6 +87,17 @@ impl Orientation {
         }
     }
 
+    /// Takes something given in the frame the cube is held in to the default frame.
+    pub(crate) fn unrotated<T: Rotatable>(&self, mut held: T) -> T {
+        let rotations: Vec<_> = self.rotations().collect();
+
+        for rotation in rotations.iter().rev() {
+            held.rotate(&rotation.inverse());
+        }
+
+        held
+    }
+
     pub(super) const fn const_default() -> Self {
         Self {
             r_face: Face::R,
-- 
2.43.0


From 74c7ca212925a147358c53a93109c4e97b7d3ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 09/16] fix: a wide turn of a held cube past its middle leaves
 the right layers

The layers that stay were counted two too many: the turn from the opposite
side was too deep, and panicked (Rw on a 3x3x3).
---
 barbarosa/src/cube_n/moves/extended.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index c8e1758..240b0d0 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -72,13 +72,13 @@ macro_rules! impl_movable_extended {
                     ExtendedAxisMove::Regular(m) => self.apply(m),
                     ExtendedAxisMove::Rotation(rot) => self.orientation.rotate(rot),
                     ExtendedAxisMove::Wide(m) => {
-                        let Some(depth_oppossite) = <$cube>::N.checked_sub(m.depth()) else {
-                            // If depth is more than N, then it is equivalent to a rotation
+                        let Some(depth_oppossite) = <$cube>::N.checked_sub(m.depth().saturating_add(2)) else {
+                            // If all layers turn, then it is equivalent to a rotation
                             self.orientation.rotate(&AxisRotation::from(&m.axis_move));
                             return;
                         };
 
-                        let m = if m.depth() < depth_oppossite {
+                        let m = if m.depth() <= depth_oppossite {
                             m.clone()
                         } else {
                             self.orientation.rotate(&AxisRotation::from(&m.axis_move));
-- 
2.43.0


From 7fdb7866e1e19a896a53549486e757173ca07820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 10/16] fix: a wide turn of a held cube turns the layers at
 that place in the hand

Wide turns ignored the orientation altogether.
---
 barbarosa/src/cube_n/moves/extended.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index 240b0d0..bc0a5dc 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -85,8 +85,9 @@ macro_rules! impl_movable_extended {
                             opposite(&m, depth_oppossite)
                         };
 
-                        let m = m.set_max_depth::<{ <$cube>::N / 2 - 1 }>()
+                        let mut m = m.set_max_depth::<{ <$cube>::N / 2 - 1 }>()
                             .expect("the depth from both sides can't be larger than N/2");
+                        m.axis_move = self.orientation.unrotated(m.axis_move);
                         self.base_cube.apply(&m);
                     },
                     ExtendedAxisMove::Slice { rot, wide } => {
-- 
2.43.0


From 159539718ff815bb440adbfbb64f37455c866fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 11/16] fix: a slice turn counter-turns both outer sides, as
 the cube is held

The negative side was turned the wrong way and the orientation was ignored.
---
 barbarosa/src/cube_n/moves/extended.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index bc0a5dc..e2f5c76 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -97,7 +97,8 @@ macro_rules! impl_movable_extended {
                                 true => <$cube>::N / 2 - 1,
                             };
 
-                            let m = WideAxisMove::<{ <$cube>::N / 2 - 1 }>::new(Face::new(rot.axis, dir), rot.amount * Direction::Negative, depth).unwrap();
+                            let face = self.orientation.unrotated(Face::new(rot.axis, dir));
+                            let m = WideAxisMove::<{ <$cube>::N / 2 - 1 }>::new(face, rot.amount * Direction::Negative * dir, depth).unwrap();
 
                             self.base_cube.apply(&m);
                         }
-- 
2.43.0


From 0f51a4437811e800e922e4307b060aac36bdcb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:12 +0000
Subject: [PATCH 12/16] fix: normalizing goes back to all moves of the last
 axis after a cancellation

---
 barbarosa/src/cube_n/moves/non_redundant.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/non_redundant.rs b/barbarosa/src/cube_n/moves/non_redundant.rs
index 70036ff..17bd506 100644
--- a/barbarosa/src/cube_n/moves/non_redundant.rs
+++ b/barbarosa/src/cube_n/moves/non_redundant.rs
@@ -322,11 +322,21 @@ impl Alg<AxisMove> {
                     absorve(&mut nr_move, mov);
                 }
 
-                // If we collapsed something, we need to go back one move to see if we can join it with something else
+                // If we collapsed something, we need to go back to the last axis (one or two moves) to see if we
+                // can join it with something else
                 AbsorveResult::Collapsed => {
                     offload(&mut nr_move, &mut moves);
                     if let Some(mov) = moves.pop() {
+                        let axis = mov.face.axis;
                         self.moves.push(mov);
+
+                        while let Some(mov) = moves.pop() {
+                            if mov.face.axis != axis {
+                                moves.push(mov);
+                                break;
+                            }
+                            self.moves.push(mov);
+                        }
                     }
                 }
 
-- 
2.43.0


From 19f46a058acc045070a3a67764e4cfcad73ab1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 13/16] hook: the generic table builder and store, under
 cfg(verif_hooks)

---
 barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs |  7 +++++++
 barbarosa/src/cube_n/cube3/mus/cache/mod.rs          | 10 ++++++++++
 2 files changed, 17 insertions(+)

diff --git a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
index 7f21d6a..26941e3 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
@@ -104,3 +104,10 @@ fn assert_correct_cache_size<T: DiskCacheable>(given: usize) {
         panic!("Cache file seems to be corrupted. It should be {} bytes long, but it's {} bytes long (help: might be wise to delete `mus-cache/`)", T::TOTAL_SET_SIZE, given);
     }
 }
+
+/// See [`super::verif_hooks`]
+#[cfg(verif_hooks)]
+pub fn load_or_build_one<T: DiskCacheable + Deindexable + Movable<AxisMove> + Clone>(
+) -> io::Result<Vec<u8>> {
+    load_or_build_partial::<T>()
+}
diff --git a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
index f9ae997..5895d91 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
@@ -3,10 +3,20 @@
 //! Currently we can only cache MUS if we have filesystem access. This should be changed
 //! to somehow work on the web with WASM and such.
 
+#![allow(unexpected_cfgs)]
+
 mod disk_storage;
 mod generation;
 mod test;
 
+/// The generic table builder and the functions that store tables, for verification only
+/// (`--cfg verif_hooks`).
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use super::disk_storage::{load_or_build_one, load_partial, write_partial, DiskCacheable};
+    pub use super::generation::build_partial;
+}
+
 use std::{io, sync::OnceLock};
 
 use crate::cube3::Cube3;
-- 
2.43.0


From 835b26f8359b9502e52dbe662641268db852cc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 14/16] fix: random 2x2x2 cubes were never twisted

Corners were only shuffled, so 2186 of 2187 solvable cubes could not be drawn.
---
 barbarosa/src/cube_n/cube2/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/barbarosa/src/cube_n/cube2/mod.rs b/barbarosa/src/cube_n/cube2/mod.rs
index 168a20a..aa56eb6 100644
--- a/barbarosa/src/cube_n/cube2/mod.rs
+++ b/barbarosa/src/cube_n/cube2/mod.rs
@@ -41,6 +41,10 @@ impl Distribution<Cube2> for Standard {
 
         cube.corners.shuffle(rng);
 
+        cube.corners
+            .iter_mut_unchecked()
+            .for_each(|corner| corner.orientation_axis = rng.gen());
+
         fix_corner_multiplicity(&mut cube.corners);
 
         cube
-- 
2.43.0


From ea79904f871e01613bf0268d08b0136769fd10cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 15/16] fix: squares beyond the fourth row or column of an
 unfolded face could not be reached

The outermost squares of sizes from 5 on were found one or more squares
short of where they are (x = 1 is column 3 of a Square<5>).
---
 barbarosa/src/cube_n/visualization/unfolded/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/barbarosa/src/cube_n/visualization/unfolded/mod.rs b/barbarosa/src/cube_n/visualization/unfolded/mod.rs
index 6b26f34..42a9f5c 100644
--- a/barbarosa/src/cube_n/visualization/unfolded/mod.rs
+++ b/barbarosa/src/cube_n/visualization/unfolded/mod.rs
@@ -94,8 +94,10 @@ impl<const N: usize> Square<N> {
     }
 
     fn transform_coord(x: f32) -> Option<usize> {
-        let x = x + 1.0;
-        let x = x * N as f32 / 3.0;
+        // The N squares evenly divide the range of accepted coordinates, which goes 1.5 / N beyond [-1, 1]
+        let n = N as f32;
+        let x = x * n * n / (2.0 * n + 3.0);
+        let x = x + (n - 1.0) / 2.0;
         let x = x.round();
 
         if x < 0.0 || x as usize >= N {
-- 
2.43.0


From bff19a48e7ca427551a32ba56c54a09a9a4b6850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 16/16] fix: a held cube with identical centre pieces exchanged
 was reported unsolved

---
 barbarosa/src/cube_n/orientable/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/barbarosa/src/cube_n/orientable/mod.rs b/barbarosa/src/cube_n/orientable/mod.rs
index 379bf72..1da6f31 100644
--- a/barbarosa/src/cube_n/orientable/mod.rs
+++ b/barbarosa/src/cube_n/orientable/mod.rs
@@ -66,6 +66,13 @@ where
     Orientable<C>: Movable<ExtendedAxisMove>,
 {
     const SOLVED: Self = Orientable::new(C::SOLVED);
+
+    fn is_solved(&self) -> bool
+    where
+        Self: 'static,
+    {
+        self.orientation == Orientation::default() && self.base_cube.is_solved()
+    }
 }
 
 impl<C: CubeN> AsMove for Orientable<C>
-- 
2.43.0

