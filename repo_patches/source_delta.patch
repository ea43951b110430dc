From 702f9c86e6bcf7824ccf9acaf697530e8357e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 01/13] fix: look up directly defined moves by exact match
 (e.g. `y2`)

---
 cubing_core/src/kpuzzle/packed/lookup_move.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/lookup_move.rs b/cubing_core/src/kpuzzle/packed/lookup_move.rs
index 35a6a90..31fed28 100644
--- a/cubing_core/src/kpuzzle/packed/lookup_move.rs
+++ b/cubing_core/src/kpuzzle/packed/lookup_move.rs
@@ -44,7 +44,7 @@ pub(crate) fn lookup_move<'a>(
         };
     }
     // Exact match (e.g. y2 on clock)
-    if let Some((key_move, source)) = def.moves.get_key_value(&r#move_with_amount_1(r#move)) {
+    if let Some((key_move, source)) = def.moves.get_key_value(r#move) {
         return Some(MoveLookupResult {
             key_move,
             relative_amount: 1,
-- 
2.43.0


From 5dfa5015266ce65b70e8484e8751e73f96b1100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 02/13] fix: display every parseable move without failing or
 losing information

---
 cubing_core/src/alg/move.rs | 44 +++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/cubing_core/src/alg/move.rs b/cubing_core/src/alg/move.rs
index 83c2372..32bb1ed 100644
--- a/cubing_core/src/alg/move.rs
+++ b/cubing_core/src/alg/move.rs
@@ -70,18 +70,22 @@ impl<'de> Visitor<'de> for MoveVisitor {
     }
 }
 
+fn strip_nonempty<'a>(family: &'a str, suffix: &str) -> Option<&'a str> {
+    family
+        .strip_suffix(suffix)
+        .filter(|stripped| !stripped.is_empty())
+}
+
 impl fmt::Display for Move {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         // TODO: memoize these calculations at construction time so we don't have to do it during every serialization?
-        if self.quantum.family == "_SLASH_" {
-            if self.amount != 1 {
-                return Err(std::fmt::Error);
-            };
+        // Special notation is only used when it can be parsed back to the same move.
+        if self.quantum.family == _SLASH_ && self.quantum.prefix.is_none() && self.amount == 1 {
             write!(f, "/")?;
             return Ok(());
         }
-        if let Some(family) = self.quantum.family.strip_suffix("_PLUS_") {
+        if let Some(family) = strip_nonempty(&self.quantum.family, _PLUS_) {
             let suffix = if self.amount < 0 { "-" } else { "+" };
             write!(
                 f,
@@ -95,22 +99,24 @@ impl fmt::Display for Move {
             )?;
             return Ok(());
         }
-        if let Some(family) = self.quantum.family.strip_suffix("_PLUSPLUS_") {
+        if let Some(family) = strip_nonempty(&self.quantum.family, _PLUSPLUS_) {
             let suffix = match self.amount {
-                1 => "++",
-                -1 => "--",
-                _ => return Err(std::fmt::Error),
+                1 => Some("++"),
+                -1 => Some("--"),
+                _ => None,
             };
-            write!(
-                f,
-                "{}{}",
-                QuantumMove {
-                    family: family.to_owned(),
-                    prefix: self.quantum.prefix.clone()
-                },
-                suffix
-            )?;
-            return Ok(());
+            if let Some(suffix) = suffix {
+                write!(
+                    f,
+                    "{}{}",
+                    QuantumMove {
+                        family: family.to_owned(),
+                        prefix: self.quantum.prefix.clone()
+                    },
+                    suffix
+                )?;
+                return Ok(());
+            }
         }
         write!(f, "{}", self.quantum)?;
         fmt_amount(f, self.amount)
-- 
2.43.0


From cd0e43a4aae2a374f22cedd1567a437333bf7717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 03/13] fix: terminate a line comment that ends an enclosed alg
 when displaying it

---
 cubing_core/src/alg/alg.rs        | 10 ++++++++++
 cubing_core/src/alg/commutator.rs |  6 +++++-
 cubing_core/src/alg/conjugate.rs  |  6 +++++-
 cubing_core/src/alg/grouping.rs   |  2 +-
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/alg/alg.rs b/cubing_core/src/alg/alg.rs
index ae6cb1f..b5303ef 100644
--- a/cubing_core/src/alg/alg.rs
+++ b/cubing_core/src/alg/alg.rs
@@ -18,6 +18,16 @@ impl Alg {
         let nodes = self.nodes.iter().rev().map(|m| m.invert()).collect();
         Alg { nodes }
     }
+
+    /// Like `Display`, but a trailing line comment is terminated so that it
+    /// cannot swallow the closing delimiter of an enclosing node.
+    pub(crate) fn fmt_enclosed(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "{}", self)?;
+        if let Some(AlgNode::LineCommentNode(_)) = self.nodes.last() {
+            writeln!(f)?;
+        }
+        Ok(())
+    }
 }
 
 impl fmt::Display for Alg {
diff --git a/cubing_core/src/alg/commutator.rs b/cubing_core/src/alg/commutator.rs
index 633e58d..9dbeffb 100644
--- a/cubing_core/src/alg/commutator.rs
+++ b/cubing_core/src/alg/commutator.rs
@@ -23,6 +23,10 @@ impl fmt::Display for Commutator {
     // TODO: memoize?
     // TODO: dedup with `Move`?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "[{}, {}]", self.a, self.b)
+        write!(f, "[")?;
+        self.a.fmt_enclosed(f)?;
+        write!(f, ", ")?;
+        self.b.fmt_enclosed(f)?;
+        write!(f, "]")
     }
 }
diff --git a/cubing_core/src/alg/conjugate.rs b/cubing_core/src/alg/conjugate.rs
index fb53fac..a1c6a15 100644
--- a/cubing_core/src/alg/conjugate.rs
+++ b/cubing_core/src/alg/conjugate.rs
@@ -22,6 +22,10 @@ impl Conjugate {
 impl fmt::Display for Conjugate {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "[{}: {}]", self.a, self.b)
+        write!(f, "[")?;
+        self.a.fmt_enclosed(f)?;
+        write!(f, ": ")?;
+        self.b.fmt_enclosed(f)?;
+        write!(f, "]")
     }
 }
diff --git a/cubing_core/src/alg/grouping.rs b/cubing_core/src/alg/grouping.rs
index 7e53cc8..2094ed7 100644
--- a/cubing_core/src/alg/grouping.rs
+++ b/cubing_core/src/alg/grouping.rs
@@ -59,7 +59,7 @@ impl fmt::Display for Grouping {
         if include_parentheses {
             write!(f, "(")?;
         }
-        write!(f, "{}", self.alg)?;
+        self.alg.fmt_enclosed(f)?;
         if include_parentheses {
             write!(f, ")")?;
         }
-- 
2.43.0


From 13fd90a12deade796218aff12be0a13c66d41131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 04/13] fix: reject orbit orientation counts that cannot be
 packed instead of panicking or corrupting patterns

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs            |  6 ++++++
 cubing_core/src/kpuzzle/packed/orientation_packer.rs | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 6080d37..991d6f6 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -201,6 +201,12 @@ impl KPuzzle {
             if num_orientations > MAX_NUM_ORIENTATIONS_INCLUSIVE {
                 return Err(InvalidDefinitionError { description: format!("`num_orientations` for orbit {} is too large ({}). Maximum is {} for the current build." , orbit_definition.orbit_name, num_orientations, MAX_NUM_ORIENTATIONS_INCLUSIVE)});
             }
+            if num_orientations == 0 {
+                return Err(InvalidDefinitionError { description: format!("`num_orientations` for orbit {} is 0. It must be at least 1.", orbit_definition.orbit_name)});
+            }
+            if !OrientationPacker::supports(num_orientations) {
+                return Err(InvalidDefinitionError { description: format!("`num_orientations` for orbit {} ({}) has too many factors for the current build." , orbit_definition.orbit_name, num_orientations)});
+            }
             ordered_orbit_info.push({
                 KPuzzleOrbitInfo {
                     name: orbit_definition.orbit_name.clone(),
diff --git a/cubing_core/src/kpuzzle/packed/orientation_packer.rs b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
index ec3d1e5..6bea5ad 100644
--- a/cubing_core/src/kpuzzle/packed/orientation_packer.rs
+++ b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
@@ -65,6 +65,16 @@ pub struct OrientationPacker {
 /// efficiently. This replaces arithmetic with simple lookups for `KPattern` logic.
 
 impl OrientationPacker {
+    /// Whether every valid (`orientation_mod`, `orientation`) pair fits in a packed value.
+    pub(crate) fn supports(num_orientations: u8) -> bool {
+        let num_packed_values = (1..=num_orientations)
+            .filter(|orientation_mod| num_orientations % orientation_mod == 0)
+            .fold(num_orientations as usize, |total, orientation_mod| {
+                total + orientation_mod as usize
+            });
+        num_packed_values <= BOGUS_PACKED_VALUE as usize
+    }
+
     pub fn new(num_orientations: u8) -> Self {
         let mut unpacking_table: [OrientationWithMod; NUM_BYTE_VALUES] =
             [BOGUS_ORIENTATION_WITH_MOD; NUM_BYTE_VALUES];
-- 
2.43.0


From 99cebdcc16b6c60da463fd0f6e50262cb033839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 05/13] fix: return an error for malformed pattern data instead
 of panicking

---
 cubing_core/src/kpuzzle/packed/kpattern.rs | 45 +++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpattern.rs b/cubing_core/src/kpuzzle/packed/kpattern.rs
index 55a6f65..23c5808 100644
--- a/cubing_core/src/kpuzzle/packed/kpattern.rs
+++ b/cubing_core/src/kpuzzle/packed/kpattern.rs
@@ -14,6 +14,43 @@ use crate::{
     kpuzzle::{KPatternData, KPatternOrbitData},
 };
 
+/// Checks everything about the entry at index `i` that the setters would otherwise panic for.
+fn check_entry(
+    orbit_info: &KPuzzleOrbitInfo,
+    orbit_data: &KPatternOrbitData,
+    i: u8,
+) -> Result<(), InvalidKPatternDataError> {
+    let orientation_mod = match &orbit_data.orientation_mod {
+        Some(orientation_mod) => orientation_mod.get(i as usize),
+        None => Some(&0),
+    };
+    let (Some(_), Some(orientation), Some(orientation_mod)) = (
+        orbit_data.pieces.get(i as usize),
+        orbit_data.orientation.get(i as usize),
+        orientation_mod,
+    ) else {
+        return Err(InvalidKPatternDataError {
+            description: format!(
+                "Missing entries for orbit {} (expected {}).",
+                orbit_info.name, orbit_info.num_pieces
+            ),
+        });
+    };
+    let num_orientations = match orientation_mod {
+        0 => &orbit_info.num_orientations,
+        orientation_mod => orientation_mod,
+    };
+    if orientation >= num_orientations {
+        return Err(InvalidKPatternDataError {
+            description: format!(
+                "Orientation of {} seen for piece at index {} in orbit {}. This must be less than {}.",
+                orientation, i, orbit_info.name, num_orientations
+            ),
+        });
+    }
+    Ok(())
+}
+
 #[derive(Hash, PartialEq, Eq, Clone)]
 pub struct KPattern {
     pub(crate) packed_orbit_data: PackedOrbitData,
@@ -39,8 +76,14 @@ impl KPattern {
                 let default_orbit = kpattern_data.get(&orbit_info.name);
                 let default_orbit = match default_orbit {
                     Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
+                    None => {
+                        return Err(InvalidKPatternDataError {
+                            description: format!("Missing data for orbit {}.", orbit_info.name),
+                        }
+                        .into())
+                    }
                 };
+                check_entry(orbit_info, default_orbit, i)?;
 
                 new_kpattern.set_piece(orbit_info, i, default_orbit.pieces[i as usize]);
                 new_kpattern.set_orientation_with_mod(
-- 
2.43.0


From 0d846b2fb59645080001117921052f5e2cc95e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 06/13] fix: return an error for malformed transformation data
 instead of panicking or reading out of bounds

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs     |  8 ++-
 .../src/kpuzzle/packed/ktransformation.rs     | 50 ++++++++++++++++++-
 2 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 991d6f6..0813bf2 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -286,8 +286,12 @@ impl KPuzzle {
         let transformation = match move_lookup_result.source {
             // TODO: Avoid constructing this `KTransformation`.
             MoveLookupResultSource::DirectlyDefined(transformation_data) => {
-                KTransformation::try_from_data(self, transformation_data)
-                    .expect("TODO: invalid definition — this should be caught earlier")
+                // TODO: invalid definition — this should be caught earlier
+                KTransformation::try_from_data(self, transformation_data).map_err(|e| {
+                    InvalidMoveError {
+                        description: format!("Invalid definition for move {}: {}", key_move, e),
+                    }
+                })?
             }
             MoveLookupResultSource::DerivedFromAlg(alg) => self.transformation_from_alg(alg)?,
         };
diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index a7993aa..c699321 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -8,9 +8,48 @@ use crate::{
 };
 
 use super::{
-    kpuzzle::KPuzzleOrbitInfo, packed_orbit_data::PackedOrbitData, ConversionError, KPuzzle,
+    kpuzzle::KPuzzleOrbitInfo, packed_orbit_data::PackedOrbitData, ConversionError,
+    InvalidKTransformationDataError, KPuzzle,
 };
 
+/// Checks that the entry at index `i` is in range, and that its permutation value has not been `seen` in the orbit before.
+fn check_entry(
+    orbit_info: &KPuzzleOrbitInfo,
+    orbit_data: &KTransformationOrbitData,
+    i: u8,
+    seen: &mut [bool; 0x100],
+) -> Result<(), InvalidKTransformationDataError> {
+    let (Some(permutation_idx), Some(orientation_delta)) = (
+        orbit_data.permutation.get(i as usize),
+        orbit_data.orientation_delta.get(i as usize),
+    ) else {
+        return Err(InvalidKTransformationDataError {
+            description: format!(
+                "Missing entries for orbit {} (expected {}).",
+                orbit_info.name, orbit_info.num_pieces
+            ),
+        });
+    };
+    let already_seen = std::mem::replace(&mut seen[*permutation_idx as usize], true);
+    if already_seen || *permutation_idx >= orbit_info.num_pieces {
+        return Err(InvalidKTransformationDataError {
+            description: format!(
+                "The data for orbit {} is not a permutation of {} pieces.",
+                orbit_info.name, orbit_info.num_pieces
+            ),
+        });
+    }
+    if *orientation_delta >= orbit_info.num_orientations {
+        return Err(InvalidKTransformationDataError {
+            description: format!(
+                "Orientation delta of {} seen at index {} in orbit {}. This must be less than {}.",
+                orientation_delta, i, orbit_info.name, orbit_info.num_orientations
+            ),
+        });
+    }
+    Ok(())
+}
+
 #[derive(Clone, Eq)]
 pub struct KTransformation {
     pub(crate) packed_orbit_data: PackedOrbitData,
@@ -31,12 +70,19 @@ impl KTransformation {
         let kpuzzle: KPuzzle = kpuzzle.into();
         let mut new_ktransformation = Self::new_uninitialized(kpuzzle.clone());
         for orbit_info in kpuzzle.orbit_info_iter() {
+            let mut seen = [false; 0x100];
             for i in 0..orbit_info.num_pieces {
                 let orbit = ktransformation_data.get(&orbit_info.name);
                 let orbit = match orbit {
                     Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
+                    None => {
+                        return Err(InvalidKTransformationDataError {
+                            description: format!("Missing data for orbit {}.", orbit_info.name),
+                        }
+                        .into())
+                    }
                 };
+                check_entry(orbit_info, orbit, i, &mut seen)?;
 
                 new_ktransformation.set_permutation_idx(
                     orbit_info,
-- 
2.43.0


From c592693a7e8ccce5f1e69d4b2ec2ba6c5a5df23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 07/13] fix: report unparseable transformation JSON as a
 transformation data error

---
 cubing_core/src/kpuzzle/packed/ktransformation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index c699321..d0a38c4 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -129,8 +129,8 @@ impl KTransformation {
         let ktransformation_data: KTransformationData = match serde_json::from_slice(json_bytes) {
             Ok(ktransformation_data) => ktransformation_data,
             Err(e) => {
-                return Err(ConversionError::InvalidKPatternData(
-                    super::InvalidKPatternDataError {
+                return Err(ConversionError::InvalidKTransformationData(
+                    super::InvalidKTransformationDataError {
                         description: format!(
                             "Could not parse JSON for KTransformation data: {}",
                             e
-- 
2.43.0


From 0731c2c87805591cd1b8d8aad2267bb88347c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 08/13] fix: prevent out-of-bounds and uninitialized reads for
 transformations modified using safe setters

---
 cubing_core/src/kpuzzle/packed/ktransformation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index d0a38c4..1f47b4a 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -198,6 +198,7 @@ impl KTransformation {
     /// This version does not check whether `i` is in the correct range.
     pub fn set_permutation_idx(&mut self, orbit_info: &KPuzzleOrbitInfo, i: u8, value: u8) {
         assert_lt!(i, orbit_info.num_pieces);
+        assert_lt!(value, orbit_info.num_pieces);
         unsafe { self.set_permutation_idx_unchecked(orbit_info, i, value) }
     }
 
@@ -301,7 +302,8 @@ impl KTransformation {
     }
 
     pub fn invert(&self) -> KTransformation {
-        let mut new_ktransformation = KTransformation::new_uninitialized(self.kpuzzle().clone());
+        // Every entry is overwritten if `self` is a permutation. If it is not (due to individual setters), this avoids exposing uninitialized entries.
+        let mut new_ktransformation = self.clone();
         for orbit_info in self.kpuzzle().orbit_info_iter() {
             let num_orientations = orbit_info.num_orientations;
 
-- 
2.43.0


From 51afbec91923e8cab0e1ec399abc64af8f243c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 09/13] fix: never request a zero-sized allocation for puzzles
 without pieces

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 0813bf2..ff25bc4 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -225,7 +225,8 @@ impl KPuzzle {
                 definition,
                 num_bytes: bytes_offset,
                 ordered_orbit_info,
-                layout: Layout::array::<u8>(bytes_offset).map_err(|_| InvalidDefinitionError {
+                // Allocating zero bytes would be undefined behaviour.
+                layout: Layout::array::<u8>(bytes_offset.max(1)).map_err(|_| InvalidDefinitionError {
                     description: "Could not construct packed layout.".to_owned(),
                 })?,
             }),
-- 
2.43.0


From 2bbf81e76a4bc89836ae3c71f992d0ee44261475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 10/13] fix: do not report an InvalidAlgError as its own source
 (an endless error chain)

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index ff25bc4..3ab1bb0 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -83,11 +83,7 @@ pub enum InvalidAlgError {
     InvalidMove(InvalidMoveError),
 }
 
-impl Error for InvalidAlgError {
-    fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
-    }
-}
+impl Error for InvalidAlgError {}
 
 fn identity_transformation(kpuzzle: &KPuzzle) -> KTransformation {
     let mut packed_orbit_data =
-- 
2.43.0


From f0bf56d5b430500e4143139d794c9b67af4b40a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 11/13] =?UTF-8?q?fix:=20keep=20the=20layer=20prefix=20of?=
 =?UTF-8?q?=20moves=20in=20parse=5Fmove!(=E2=80=A6)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 cubing_macros/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cubing_macros/src/lib.rs b/cubing_macros/src/lib.rs
index 6ba1880..dbe7595 100644
--- a/cubing_macros/src/lib.rs
+++ b/cubing_macros/src/lib.rs
@@ -1,7 +1,7 @@
 // TODO: report errors better.
 // Maybe use https://docs.rs/proc-macro-error/latest/proc_macro_error/ ?
 
-use cubing_core::alg::{Alg, Move};
+use cubing_core::alg::{Alg, Move, MoveLayer, MovePrefix, MoveRange};
 
 use proc_macro::TokenStream;
 use quote::quote;
@@ -30,11 +30,23 @@ pub fn parse_move(item: TokenStream) -> TokenStream {
         Ok(r#move) => {
             let move_family = &r#move.quantum.family;
             let move_amount = r#move.amount;
+            let move_prefix = match &r#move.quantum.prefix {
+                None => quote! { None },
+                Some(MovePrefix::Layer(MoveLayer { layer })) => {
+                    quote! { Some(cubing::alg::MovePrefix::from(#layer)) }
+                }
+                Some(MovePrefix::Range(MoveRange {
+                    outer_layer,
+                    inner_layer,
+                })) => {
+                    quote! { Some(cubing::alg::MovePrefix::from((#outer_layer, #inner_layer))) }
+                }
+            };
             // TODO: can we avoid constructing the move from scratch every time?
             quote! { cubing::alg::Move {
                 quantum: std::sync::Arc::new(cubing::alg::QuantumMove {
                     family: String::from(#move_family),
-                    prefix: None,
+                    prefix: #move_prefix,
                 }),
                 amount: #move_amount,
             } }
-- 
2.43.0


From bc74202cd258e27a9a4cf2447de54de085a54f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 12/13] fix: let kpuzzle_from_json_file! be used without a
 direct serde_json dependency

---
 cubing_core/src/kpuzzle/json_macros.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cubing_core/src/kpuzzle/json_macros.rs b/cubing_core/src/kpuzzle/json_macros.rs
index fc8e327..18c4a13 100644
--- a/cubing_core/src/kpuzzle/json_macros.rs
+++ b/cubing_core/src/kpuzzle/json_macros.rs
@@ -27,9 +27,7 @@ macro_rules! kpuzzle_from_json_file {
           static [<$kpuzzle_name _kpuzzle_cell>]: std::sync::OnceLock<$crate::kpuzzle::KPuzzle> = std::sync::OnceLock::new();
           $visibility fn [<$kpuzzle_name _kpuzzle>]() -> &'static $crate::kpuzzle::KPuzzle {
                 [<$kpuzzle_name _kpuzzle_cell>].get_or_init(|| {
-                    let def: $crate::kpuzzle::KPuzzleDefinition = serde_json::from_slice(include_bytes!($file)).unwrap();
-                    let kpuzzle: $crate::kpuzzle::KPuzzle = def.try_into().unwrap();
-                    kpuzzle
+                    $crate::kpuzzle::KPuzzle::try_from_json(include_bytes!($file)).unwrap()
                 })
             }
         }
-- 
2.43.0


From a74d0df49c840602fafac5361c7a36d8f52d2611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 13/13] fix: invert the transformation, not the alg, for
 commutators and conjugates (a derived move could end up defined by itself and
 overflow the stack)

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 3ab1bb0..7f5f304 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -165,8 +165,8 @@ fn transformation_from_alg_node(
         AlgNode::CommutatorNode(commutator) => {
             let a = transformation_from_alg(kpuzzle, &commutator.a)?;
             let b = transformation_from_alg(kpuzzle, &commutator.b)?;
-            let a_prime = transformation_from_alg(kpuzzle, &commutator.a.invert())?; // TODO: invert the transformation instead of the alg!
-            let b_prime = transformation_from_alg(kpuzzle, &commutator.b.invert())?; // TODO: invert the transformation instead of the alg!
+            let a_prime = a.invert();
+            let b_prime = b.invert();
             Ok(a.apply_transformation(&b)
                 .apply_transformation(&a_prime)
                 .apply_transformation(&b_prime))
@@ -174,7 +174,7 @@ fn transformation_from_alg_node(
         AlgNode::ConjugateNode(conjugate) => {
             let a = transformation_from_alg(kpuzzle, &conjugate.a)?;
             let b = transformation_from_alg(kpuzzle, &conjugate.b)?;
-            let a_prime = transformation_from_alg(kpuzzle, &conjugate.a.invert())?; // TODO: invert the transformation instead of the alg!
+            let a_prime = a.invert();
             Ok(a.apply_transformation(&b).apply_transformation(&a_prime))
         }
     }
-- 
2.43.0

