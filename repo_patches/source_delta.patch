From 3d976df863eae708f88ac6ac7e6017311e10ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:33 +0000
Subject: [PATCH 01/25] fix: weld brush corners where more than three planes
 meet

Each triple of planes computes such a corner with its own rounding, so comparing
the results for exact equality left duplicates and degenerate triangles.
---
 src/geo_builder/brush_plane/mod.rs      | 4 ++--
 src/geo_builder/brush_plane/vertices.rs | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/geo_builder/brush_plane/mod.rs b/src/geo_builder/brush_plane/mod.rs
index 70cf2ff..d0389bc 100644
--- a/src/geo_builder/brush_plane/mod.rs
+++ b/src/geo_builder/brush_plane/mod.rs
@@ -39,14 +39,14 @@ pub fn build(
             match plane_vertices
                 .iter()
                 .skip(i + 1)
-                .find(|comp| comp.vertex == vertex.vertex)
+                .find(|comp| vertices::same_vertex(comp.vertex, vertex.vertex))
             {
                 None => match entity.get_property("_phong") {
                     Some("1") => {
                         let mut vertex = plane_vertices.iter().skip(i + 1).fold(
                             vertex.clone(),
                             |mut acc, next| {
-                                if next.vertex == acc.vertex {
+                                if vertices::same_vertex(next.vertex, acc.vertex) {
                                     acc.normal = next.normal;
                                 }
                                 acc
diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index 50a85eb..e2f6bb1 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -23,6 +23,12 @@ pub fn intersect_brush_planes(
     )
 }
 
+// More than three planes can meet in one corner, which each triple of them
+// computes with its own rounding
+pub fn same_vertex(lhs: Vector3, rhs: Vector3) -> bool {
+    (lhs - rhs).length() <= CMP_EPSILON
+}
+
 pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane]) -> bool {
     for brush_plane in hull {
         let proj = brush_plane.normal().dot(vertex);
-- 
2.43.0


From b2fcd95ad4e325625246e1cc7a69d98f1089ddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:33 +0000
Subject: [PATCH 02/25] fix: compute brush corners relative to a point of the
 brush

Sloped brushes far from the world origin lost corners to rounding.
---
 src/geo_builder/brush_plane/vertices.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index e2f6bb1..e31de54 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -18,9 +18,12 @@ pub fn intersect_brush_planes(
         return None;
     }
 
-    Some(
-        (n1.cross(n2) * p0.dist() + n2.cross(n0) * p1.dist() + n0.cross(n1) * p2.dist()) / denom,
-    )
+    // Relative to a point on the first plane, so that rounding errors do not
+    // grow with the distance from the world origin
+    let d1 = n1.dot(p1.v0 - p0.v0);
+    let d2 = n2.dot(p2.v0 - p0.v0);
+
+    Some(p0.v0 + (n2.cross(n0) * d1 + n0.cross(n1) * d2) / denom)
 }
 
 // More than three planes can meet in one corner, which each triple of them
@@ -31,8 +34,8 @@ pub fn same_vertex(lhs: Vector3, rhs: Vector3) -> bool {
 
 pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane]) -> bool {
     for brush_plane in hull {
-        let proj = brush_plane.normal().dot(vertex);
-        if proj > brush_plane.dist() && proj - brush_plane.dist() > CMP_EPSILON {
+        let proj = brush_plane.normal().dot(vertex - brush_plane.v0);
+        if proj > CMP_EPSILON {
             return false;
         }
     }
-- 
2.43.0


From 50e4335c85a09dae9200a56dac6b5f31f4454c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 03/25] fix: ignore faces whose points do not span a plane

Their NaN normal produced NaN vertices on every face of the brush, or a panic
when calculating texture coordinates and tangents.
---
 src/geo_builder/brush_plane/vertices.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index e31de54..e037a3a 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -14,7 +14,8 @@ pub fn intersect_brush_planes(
 
     let denom = n0.cross(n1).dot(n2);
 
-    if denom < CMP_EPSILON {
+    // Also rules out planes without a normal
+    if denom.is_nan() || denom < CMP_EPSILON {
         return None;
     }
 
-- 
2.43.0


From fd62ed3911bf23e2e0cfa531d79ac843eab6045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 04/25] fix: leave faces without vertices out of the brush
 center

They counted as if centered at the world origin.
---
 src/geo_builder/brush/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/geo_builder/brush/mod.rs b/src/geo_builder/brush/mod.rs
index 13f8947..e8dc2a2 100644
--- a/src/geo_builder/brush/mod.rs
+++ b/src/geo_builder/brush/mod.rs
@@ -18,12 +18,15 @@ pub fn build(textures: &TextureInfo, entity: &Entity, brush: &Brush) -> Geometry
         .collect();
 
     // Calculate center
-    let center = plane_geometry
+    let planes_with_vertices = plane_geometry
         .iter()
+        .filter(|plane_geometry| !plane_geometry.vertices.is_empty());
+    let center = planes_with_vertices
+        .clone()
         .fold(Vector3::new(0.0, 0.0, 0.0), |acc, plane_geometry| {
             acc + plane_geometry.center
         })
-        / plane_geometry.len().max(1) as f32;
+        / planes_with_vertices.count().max(1) as f32;
 
     Geometry::new(center, plane_geometry)
 }
-- 
2.43.0


From 2d3e69a907e0e13d4021375bcd391ce4fc189a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 05/25] fix: smooth normals over all faces that meet at a
 corner

Where more than three faces meet, only the last pair found was used, which left
seams in smoothed surfaces.
---
 src/geo_builder/brush_plane/mod.rs      | 21 +++---------------
 src/geo_builder/brush_plane/normals.rs  | 29 +++++++++++++++----------
 src/geo_builder/brush_plane/vertices.rs |  4 ++++
 3 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/src/geo_builder/brush_plane/mod.rs b/src/geo_builder/brush_plane/mod.rs
index d0389bc..b95570b 100644
--- a/src/geo_builder/brush_plane/mod.rs
+++ b/src/geo_builder/brush_plane/mod.rs
@@ -35,28 +35,13 @@ pub fn build(
         .iter()
         .enumerate()
         .flat_map(|(i, vertex)| {
-            // Find unique vertices and aggregate phong normals
+            // Find unique vertices
             match plane_vertices
                 .iter()
                 .skip(i + 1)
                 .find(|comp| vertices::same_vertex(comp.vertex, vertex.vertex))
             {
-                None => match entity.get_property("_phong") {
-                    Some("1") => {
-                        let mut vertex = plane_vertices.iter().skip(i + 1).fold(
-                            vertex.clone(),
-                            |mut acc, next| {
-                                if vertices::same_vertex(next.vertex, acc.vertex) {
-                                    acc.normal = next.normal;
-                                }
-                                acc
-                            },
-                        );
-                        vertex.normal = vertex.normal.normalize();
-                        Some(vertex)
-                    }
-                    _ => Some(vertex.clone()),
-                },
+                None => Some(vertex.clone()),
                 _ => None,
             }
         })
@@ -123,7 +108,7 @@ fn build_plane_vertex(
 ) -> Option<Vertex> {
     if let Some(vertex) = vertices::intersect_brush_planes(plane, p1, p2) {
         if vertices::vertex_in_hull(vertex, planes) {
-            let normal = normals::vertex_normal(entity, plane, p1, p2);
+            let normal = normals::vertex_normal(entity, plane, vertex, planes);
             let tangent = tangents::vertex_tangent(plane);
 
             let uv = match &texture_info {
diff --git a/src/geo_builder/brush_plane/normals.rs b/src/geo_builder/brush_plane/normals.rs
index 0aaba39..8beb3e5 100644
--- a/src/geo_builder/brush_plane/normals.rs
+++ b/src/geo_builder/brush_plane/normals.rs
@@ -1,12 +1,18 @@
 use crate::Vector3;
+use super::vertices;
 use crate::map::quake::Entity;
 use crate::map::quake::BrushPlane;
 
 const ONE_DEGREE: f32 = 0.017_453_3;
 
-pub fn vertex_normal(entity: &Entity, p0: &BrushPlane, p1: &BrushPlane, p2: &BrushPlane) -> Vector3 {
+pub fn vertex_normal(entity: &Entity, p0: &BrushPlane, vertex: Vector3, planes: &[BrushPlane]) -> Vector3 {
     if let Some("1") = entity.get_property("_phong") {
-        return phong_normal(p0, p1, p2, entity.get_property("_phong_angle"));
+        // All other planes that meet at the vertex
+        let neighbors: Vec<&BrushPlane> = planes
+            .iter()
+            .filter(|plane| !std::ptr::eq(*plane, p0) && vertices::vertex_on_plane(vertex, plane))
+            .collect();
+        return phong_normal(p0, &neighbors, entity.get_property("_phong_angle"));
     }
 
     p0.normal()
@@ -14,23 +20,24 @@ pub fn vertex_normal(entity: &Entity, p0: &BrushPlane, p1: &BrushPlane, p2: &Bru
 
 fn phong_normal(
     p0: &BrushPlane,
-    p1: &BrushPlane,
-    p2: &BrushPlane,
+    neighbors: &[&BrushPlane],
     phong_angle: Option<&str>,
 ) -> Vector3 {
     if let Some(phong_angle) = phong_angle {
         if let Ok(phong_angle) = phong_angle.parse::<f32>() {
             let threshold = ((phong_angle + 0.01) * ONE_DEGREE).cos();
             let mut normal = p0.normal();
-            if p0.normal().dot(p1.normal()) > threshold {
-                normal += p1.normal()
-            }
-            if p0.normal().dot(p2.normal()) > threshold {
-                normal += p2.normal()
+            for p1 in neighbors {
+                if p0.normal().dot(p1.normal()) > threshold {
+                    normal += p1.normal()
+                }
             }
             return normal.normalize();
         }
     }
 
-    (p0.normal() + p1.normal() + p2.normal()).normalize()
-}
\ No newline at end of file
+    neighbors
+        .iter()
+        .fold(p0.normal(), |acc, next| acc + next.normal())
+        .normalize()
+}
diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index e037a3a..8c4c05c 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -33,6 +33,10 @@ pub fn same_vertex(lhs: Vector3, rhs: Vector3) -> bool {
     (lhs - rhs).length() <= CMP_EPSILON
 }
 
+pub fn vertex_on_plane(vertex: Vector3, plane: &BrushPlane) -> bool {
+    plane.normal().dot(vertex - plane.v0).abs() <= CMP_EPSILON
+}
+
 pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane]) -> bool {
     for brush_plane in hull {
         let proj = brush_plane.normal().dot(vertex - brush_plane.v0);
-- 
2.43.0


From 89f05173b8230a5247da2cd305279c7dcffe575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:18 +0000
Subject: [PATCH 06/25] fix: do not panic on incomplete key/value lines

---
 src/map/quake/tokenizer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index 578c5b5..dd0900b 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -50,10 +50,13 @@ pub fn run(file_string: String) -> Vec<Token> {
             Some('"') => {
                 let mut comps = line.split('"');
                 comps.next();
-                let key = comps.next().unwrap();
+                let key = comps.next();
                 comps.next();
-                let value = comps.next().unwrap();
-                Token::property(key, value)
+                let value = comps.next();
+                match (key, value) {
+                    (Some(key), Some(value)) => Token::property(key, value),
+                    _ => Token::unrecognized(line),
+                }
             }
             Some('{') => Token::OpenBrace,
             Some('}') => Token::CloseBrace,
-- 
2.43.0


From bc68206e0fee75dba168241287a30c390d7e3771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 07/25] fix: report malformed face lines as errors instead of
 panicking

---
 src/map/quake/types/brush_plane.rs | 48 +++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/map/quake/types/brush_plane.rs b/src/map/quake/types/brush_plane.rs
index ea3cf0d..c031866 100644
--- a/src/map/quake/types/brush_plane.rs
+++ b/src/map/quake/types/brush_plane.rs
@@ -92,6 +92,18 @@ pub struct BrushPlane {
     pub extra: ExtraData,
 }
 
+fn next_comp<'a>(comps: &mut impl Iterator<Item = &'a str>) -> Result<&'a str, QuarchitectError> {
+    comps
+        .next()
+        .ok_or(QuarchitectError("Missing brush plane component"))
+}
+
+fn next_number<'a>(comps: &mut impl Iterator<Item = &'a str>) -> Result<f32, QuarchitectError> {
+    next_comp(comps)?
+        .parse()
+        .map_err(|_| QuarchitectError("Failed to parse brush plane number"))
+}
+
 impl BrushPlane {
     pub fn new(source: &str) -> Result<BrushPlane, QuarchitectError> {
         let mut comps = source.split_whitespace();
@@ -102,9 +114,9 @@ impl BrushPlane {
 
         for i in 0..3 {
             comps.next();
-            let x: f32 = comps.next().unwrap().parse().unwrap();
-            let y: f32 = comps.next().unwrap().parse().unwrap();
-            let z: f32 = comps.next().unwrap().parse().unwrap();
+            let x: f32 = next_number(&mut comps)?;
+            let y: f32 = next_number(&mut comps)?;
+            let z: f32 = next_number(&mut comps)?;
             comps.next();
 
             let v = match i {
@@ -119,26 +131,26 @@ impl BrushPlane {
             v.set_z(z);
         }
 
-        let texture = comps.next().unwrap().to_lowercase();
+        let texture = next_comp(&mut comps)?.to_lowercase();
 
-        let uv = match comps.next().unwrap().parse::<f32>() {
+        let uv = match next_comp(&mut comps)?.parse::<f32>() {
             Ok(u) => {
-                let v: f32 = comps.next().unwrap().parse().unwrap();
+                let v: f32 = next_number(&mut comps)?;
                 UV::standard(u, v)
             }
             Err(_err) => {
-                let ux: f32 = comps.next().unwrap().parse().unwrap();
-                let uy: f32 = comps.next().unwrap().parse().unwrap();
-                let uz: f32 = comps.next().unwrap().parse().unwrap();
-                let uo: f32 = comps.next().unwrap().parse().unwrap();
+                let ux: f32 = next_number(&mut comps)?;
+                let uy: f32 = next_number(&mut comps)?;
+                let uz: f32 = next_number(&mut comps)?;
+                let uo: f32 = next_number(&mut comps)?;
 
                 comps.next();
                 comps.next();
 
-                let vx: f32 = comps.next().unwrap().parse().unwrap();
-                let vy: f32 = comps.next().unwrap().parse().unwrap();
-                let vz: f32 = comps.next().unwrap().parse().unwrap();
-                let vo: f32 = comps.next().unwrap().parse().unwrap();
+                let vx: f32 = next_number(&mut comps)?;
+                let vy: f32 = next_number(&mut comps)?;
+                let vz: f32 = next_number(&mut comps)?;
+                let vo: f32 = next_number(&mut comps)?;
                 
                 comps.next();
 
@@ -146,16 +158,16 @@ impl BrushPlane {
             }
         };
 
-        let rotation: f32 = comps.next().unwrap().parse().unwrap();
+        let rotation: f32 = next_number(&mut comps)?;
 
-        let x: f32 = comps.next().unwrap().parse().unwrap();
-        let y: f32 = comps.next().unwrap().parse().unwrap();
+        let x: f32 = next_number(&mut comps)?;
+        let y: f32 = next_number(&mut comps)?;
         let scale = Vector2::new(x, y);
 
         let extra_comps: Vec<&str> = comps.collect();
         let extra = match extra_comps.len() {
             0 => ExtraData::None,
-            1 => ExtraData::Hexen2(extra_comps.first().unwrap().parse().unwrap()),
+            1 => ExtraData::Hexen2(next_number(&mut extra_comps.into_iter())?),
             3 => ExtraData::quake_2(extra_comps)?,
             6 => ExtraData::daikatana(extra_comps)?,
             _ => return Err(QuarchitectError("Unrecognized extra data")),
-- 
2.43.0


From 203d2a3478597a9acc084acbe0060a440dcdbb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 08/25] fix: report entities without classname as an error
 instead of panicking

---
 src/map/quake/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/map/quake/parser.rs b/src/map/quake/parser.rs
index 629ef92..6490521 100644
--- a/src/map/quake/parser.rs
+++ b/src/map/quake/parser.rs
@@ -191,5 +191,9 @@ pub fn run(
         }
     }
 
+    if entities.iter().any(|entity| entity.get_property("classname").is_none()) {
+        return Err(QuarchitectError("Entity without classname"));
+    }
+
     Ok((token_paths, entities))
 }
-- 
2.43.0


From eef01b63f3eb3f0f0a977927e09740a775b1c357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 09/25] fix: report a missing or repeated worldspawn as an
 error instead of panicking

---
 src/layer_filter/mod.rs | 21 ++++++++++++---------
 src/lib.rs              |  2 +-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index 4562126..678b8ce 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,13 +1,17 @@
 use crate::geo_builder;
 use crate::map;
+use crate::QuarchitectError;
 use std::collections::HashMap;
 
 pub fn run(
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-) -> (
-    Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-    HashMap<String, Vec<geo_builder::brush::Geometry>>,
-) {
+) -> Result<
+    (
+        Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
+        HashMap<String, Vec<geo_builder::brush::Geometry>>,
+    ),
+    QuarchitectError,
+> {
     let mut worldspawn_layers: HashMap<String, Vec<geo_builder::brush::Geometry>> = HashMap::new();
 
     let (mut worldspawn_entity_data, entity_data): (
@@ -21,10 +25,9 @@ pub fn run(
         });
 
     {
-        assert!(
-            worldspawn_entity_data.len() == 1,
-            "Worldspawn element not a singleton"
-        );
+        if worldspawn_entity_data.len() != 1 {
+            return Err(QuarchitectError("Worldspawn element not a singleton"));
+        }
 
         let (worldspawn_entity, mut worldspawn_geometry): (
             map::quake::Entity,
@@ -60,7 +63,7 @@ pub fn run(
         .chain(entity_data.into_iter())
         .collect();
 
-    (entity_data, worldspawn_layers)
+    Ok((entity_data, worldspawn_layers))
 }
 
 fn brush_geometry_by_layer(layer: &str) -> impl FnMut(&geo_builder::brush::Geometry) -> bool + '_ {
diff --git a/src/lib.rs b/src/lib.rs
index ea01d4b..782fd1b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,7 +71,7 @@ pub fn run(config: Config) -> Result<Vec<scene_tree::SceneTreeNode>, Box<dyn Err
         .collect();
 
     // Split layers out of worldspawn
-    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data);
+    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data)?;
 
     // Build engine representation
     let scene_tree = scene_tree::run(
-- 
2.43.0


From da8f0b8284799e5a999d23530c0a3e57abc56124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 10/25] fix: do not panic on group IDs that are not integers

---
 src/scene_tree/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index c58d2bf..2c0aa97 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -291,17 +291,14 @@ fn get_entity_properties(
     let mut properties: HashMap<String, Property> = HashMap::new();
 
     let mut add_internal_property_integer = |property_name: &str| {
-        if entity.properties.contains_key(property_name) {
+        if let Some(Ok(value)) = entity
+            .properties
+            .get(property_name)
+            .map(|value| value.parse::<i32>())
+        {
             properties.insert(
                 property_name.into(),
-                crate::game_data::Property::Integer(
-                    entity
-                        .properties
-                        .get(property_name)
-                        .unwrap()
-                        .parse::<i32>()
-                        .unwrap(),
-                ),
+                crate::game_data::Property::Integer(value),
             );
         }
     };
-- 
2.43.0


From 17a609069845b31170c643ac266d54263444e76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 11/25] fix: build group members only below the first entity
 with the group's ID

Repeated IDs duplicated the members, and an entity that is a member of its own
group recursed without end.
---
 src/scene_tree/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 2c0aa97..08603ce 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -93,12 +93,18 @@ fn build_entity<'a>(
         }
 
         let tb_id = entity.properties.get("_tb_id");
+        // The first entity with an ID owns its group, so that no entity is
+        // built twice or below itself
+        let owns_group = entity_data
+            .iter()
+            .find(|(other, _geometry)| other.properties.get("_tb_id") == tb_id)
+            .map_or(false, |(other, _geometry)| std::ptr::eq(other, entity));
         let mut child_entities: Vec<SceneTreeNode> = entity_data
             .iter()
             .skip(1)
             .filter(|(child_entity, _geometry)| {
                 let child_group = child_entity.properties.get("_tb_group");
-                child_group.is_some() && child_group == tb_id
+                owns_group && child_group.is_some() && child_group == tb_id
             })
             .flat_map(build_entity(
                 quarchitect_game_data,
-- 
2.43.0


From 52383c77eeafcc594407bdbaaa655d6a47e0a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 12/25] fix: build flags properties as flags instead of choices

---
 src/scene_tree/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 08603ce..c873fbc 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -388,7 +388,7 @@ fn get_entity_properties(
                     None => *default,
                 };
 
-                Property::Choices(value)
+                Property::Flags(value)
             }
             crate::game_data::forge::PropertyData::TargetSource => Property::TargetSource,
             crate::game_data::forge::PropertyData::TargetDestination => Property::TargetDestination,
-- 
2.43.0


From af2386e4a0a8e9f7ef06e86b43a579fc526efcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 13/25] fix: keep worldspawn layers in a fixed order

The iteration order of the hash map changed from run to run.
---
 src/layer_filter/mod.rs | 6 +++---
 src/scene_tree/mod.rs   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index 678b8ce..51f2e0a 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,18 +1,18 @@
 use crate::geo_builder;
 use crate::map;
 use crate::QuarchitectError;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 pub fn run(
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
 ) -> Result<
     (
         Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-        HashMap<String, Vec<geo_builder::brush::Geometry>>,
+        BTreeMap<String, Vec<geo_builder::brush::Geometry>>,
     ),
     QuarchitectError,
 > {
-    let mut worldspawn_layers: HashMap<String, Vec<geo_builder::brush::Geometry>> = HashMap::new();
+    let mut worldspawn_layers: BTreeMap<String, Vec<geo_builder::brush::Geometry>> = BTreeMap::new();
 
     let (mut worldspawn_entity_data, entity_data): (
         Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index c873fbc..75e8f9e 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 pub use types::{
     Actor, CollisionGeometry, MeshSurface, SceneTreeNode, SceneTreeType, VisualGeometry,
@@ -24,7 +24,7 @@ pub fn run(
     quarchitect_game_data: &crate::game_data::GameData,
     texture_blacklist: &crate::types::TextureBlacklist,
     entity_data: &[(Entity, entity::Geometry)],
-    worldspawn_layers: &HashMap<String, Vec<brush::Geometry>>,
+    worldspawn_layers: &BTreeMap<String, Vec<brush::Geometry>>,
 ) -> Vec<SceneTreeNode> {
     println!("TODO-2: Implement godot group assignment");
     // Global '_groups' property, comma-separated string of group names to apply during build
-- 
2.43.0


From c8c2524c2da3e7c4f213a3b1782bdeb5b0d9a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 14/25] fix: merge duplicate vertices into the one they are
 equal to

They were merged into the first vertex in the same place, whatever its normal,
tangent or texture coordinate.
---
 src/scene_tree/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 75e8f9e..103c0b2 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -797,9 +797,10 @@ fn filter_vertices<'a>(
             new_indices.push(i);
             new_vertices.push(vertex);
         } else {
-            let position = vertices
+            // The kept vertex that the predicate regards as the same
+            let position = *new_indices
                 .iter()
-                .position(|comp| comp.vertex == vertex.vertex)
+                .find(|kept| !predicate(1, vertex, &[vertices[**kept], *vertex]))
                 .unwrap();
 
             indices = indices
-- 
2.43.0


From f9453b4a24e4bcc6563ebbf11267b9324b7572ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 15/25] fix: do not attach convex collision without shapes

It also made empty worldspawn layers appear in the scene.
---
 src/scene_tree/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 103c0b2..53bb234 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -670,6 +670,10 @@ fn get_entity_convex_collision(entity_geometry: &entity::Geometry) -> CollisionG
         })
         .collect();
 
+    if convex_shapes.is_empty() {
+        return CollisionGeometry::None;
+    }
+
     CollisionGeometry::convex(convex_shapes)
 }
 
-- 
2.43.0


From 2b27189c85ca9b48edd542cad1ffd85d75ad7945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 16/25] fix: apply texture blacklists to textures of unknown
 size

Their faces were shown on the untextured surface, and kept their brush visible.
---
 src/geo_builder/brush_plane/geometry.rs | 5 +++--
 src/geo_builder/brush_plane/mod.rs      | 2 +-
 src/scene_tree/mod.rs                   | 2 +-
 src/scene_tree/predicates/brush.rs      | 6 +-----
 src/scene_tree/predicates/plane.rs      | 6 +++++-
 5 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/geo_builder/brush_plane/geometry.rs b/src/geo_builder/brush_plane/geometry.rs
index fac163f..8be5b9f 100644
--- a/src/geo_builder/brush_plane/geometry.rs
+++ b/src/geo_builder/brush_plane/geometry.rs
@@ -7,10 +7,11 @@ pub struct Geometry {
     pub vertices: Vec<Vertex>,
     pub indices: Vec<usize>,
     pub texture: Option<String>,
+    pub texture_name: String,
 }
 
 impl Geometry {
-    pub fn new(center: Vector3, vertices: Vec<Vertex>, indices: Vec<usize>, texture:Option<String>) -> Geometry {
-        Geometry { center, vertices, indices, texture }
+    pub fn new(center: Vector3, vertices: Vec<Vertex>, indices: Vec<usize>, texture:Option<String>, texture_name: String) -> Geometry {
+        Geometry { center, vertices, indices, texture, texture_name }
     }
 }
diff --git a/src/geo_builder/brush_plane/mod.rs b/src/geo_builder/brush_plane/mod.rs
index b95570b..2c75a3a 100644
--- a/src/geo_builder/brush_plane/mod.rs
+++ b/src/geo_builder/brush_plane/mod.rs
@@ -95,7 +95,7 @@ pub fn build(
         None => None,
     };
 
-    Geometry::new(center, world_vertices, indices, texture)
+    Geometry::new(center, world_vertices, indices, texture, plane.texture.clone())
 }
 
 fn build_plane_vertex(
diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 53bb234..9610fbe 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -578,7 +578,7 @@ fn build_brush_entity_texture_surface<'a>(
         let (vertices, indices) = gather_entity_geometry(
             entity_geometry,
             Some(&predicates::brush::not_blacklisted(&texture_blacklist)),
-            Some(&predicates::plane::has_texture(&texture)),
+            Some(&predicates::plane::has_texture_not_blacklisted(&texture, &texture_blacklist)),
             Some(&predicates::vertex::unique),
         );
 
diff --git a/src/scene_tree/predicates/brush.rs b/src/scene_tree/predicates/brush.rs
index 73feb62..f3ea731 100644
--- a/src/scene_tree/predicates/brush.rs
+++ b/src/scene_tree/predicates/brush.rs
@@ -5,11 +5,7 @@ pub fn not_blacklisted<'a>(
 ) -> impl Fn(&&crate::geo_builder::brush::Geometry) -> bool + 'a {
     move |brush_geometry: &&crate::geo_builder::brush::Geometry| {
         for plane in &brush_geometry.plane_geometry {
-            if let Some(texture) = &plane.texture {
-                if !texture_blacklist.is_blacklisted_brush(texture) {
-                    return true;
-                }
-            } else {
+            if !texture_blacklist.is_blacklisted_brush(&plane.texture_name) {
                 return true;
             }
         }
diff --git a/src/scene_tree/predicates/plane.rs b/src/scene_tree/predicates/plane.rs
index fada3ca..2532950 100644
--- a/src/scene_tree/predicates/plane.rs
+++ b/src/scene_tree/predicates/plane.rs
@@ -1,7 +1,11 @@
-pub fn has_texture<'a>(
+use crate::TextureBlacklist;
+
+pub fn has_texture_not_blacklisted<'a>(
     texture: &'a Option<String>,
+    texture_blacklist: &'a TextureBlacklist,
 ) -> impl Fn(&&crate::geo_builder::brush_plane::Geometry) -> bool + 'a {
     move |plane_geometry: &&crate::geo_builder::brush_plane::Geometry| {
         &plane_geometry.texture == texture
+            && !texture_blacklist.is_blacklisted_plane(&plane_geometry.texture_name)
     }
 }
-- 
2.43.0


From 0038c7b1c172be7273c9d1f0453bbde19f7a077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:32 +0000
Subject: [PATCH 17/25] fix: slice the mip levels of WAD textures correctly

Reading more than one level panicked.
---
 src/wad/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index ca219ae..350c082 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -293,7 +293,7 @@ fn read_mip_data(
             };
 
             let mip1 = if mip_levels > 1 {
-                let mip1_buf = &mipdata_buf[size0..size1];
+                let mip1_buf = &mipdata_buf[size0..size0 + size1];
                 let (_, mip1) = match mip_level::parser(size1)(mip1_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 1: {:?}", err)),
@@ -304,7 +304,7 @@ fn read_mip_data(
             };
 
             let mip2 = if mip_levels > 2 {
-                let mip2_buf = &mipdata_buf[size0 + size1..size2];
+                let mip2_buf = &mipdata_buf[size0 + size1..size0 + size1 + size2];
                 let (_, mip2) = match mip_level::parser(size2)(mip2_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 2: {:?}", err)),
@@ -315,7 +315,7 @@ fn read_mip_data(
             };
 
             let mip3 = if mip_levels > 3 {
-                let mip3_buf = &mipdata_buf[size0 + size1 + size2..size3];
+                let mip3_buf = &mipdata_buf[size0 + size1 + size2..size0 + size1 + size2 + size3];
                 let (_, mip3) = match mip_level::parser(size3)(mip3_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 3: {:?}", err)),
-- 
2.43.0


From 3523aafa55f523a36377ccf11beeb8d4c24e550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:32 +0000
Subject: [PATCH 18/25] fix: report an unknown WAD signature as an error
 instead of panicking

---
 src/wad/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index 350c082..5014852 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -105,7 +105,7 @@ pub fn read_textures(
     let wad_type = match header.magic {
         ['W', 'A', 'D', '2'] => WadType::WAD2,
         ['W', 'A', 'D', '3'] => WadType::WAD3,
-        _ => panic!("Unexpected WAD magic: {:?}", header.magic),
+        _ => return Err(format!("Unexpected WAD magic: {:?}", header.magic)),
     };
 
     let now = Instant::now();
-- 
2.43.0


From 0c8b7f67185b3aa5141f0c3a5367e01132e72770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:32 +0000
Subject: [PATCH 19/25] fix: stop reading the WAD directory at the first error

A damaged entry count collected up to four billion errors.
---
 src/wad/mod.rs | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index 5014852..d421177 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -149,7 +149,7 @@ fn read_directory(
     header: &header::Header,
     whitelist: &Option<Vec<String>>,
 ) -> Result<Vec<Entry>, String> {
-    let entries: Vec<Result<Option<Entry>, String>> = (0..header.num_entries)
+    let entries: Result<Vec<Option<Entry>>, String> = (0..header.num_entries)
         .map(|i| {
             let offset = header.dir_offset;
             let offset = offset + i * ENTRY_BYTES as u32;
@@ -183,22 +183,7 @@ fn read_directory(
         })
         .collect();
 
-    if let Some(err) = entries.iter().find_map(|res| match res {
-        Err(err) => Some(err),
-        _ => None,
-    }) {
-        return Err(err.clone());
-    }
-
-    let entries = entries
-        .into_iter()
-        .flat_map(|entry| match entry {
-            Ok(Some(entry)) => Some(entry),
-            _ => None,
-        })
-        .collect();
-
-    Ok(entries)
+    Ok(entries?.into_iter().flatten().collect())
 }
 
 fn read_mip_textures(wad_file: &mut File, directory: &[Entry]) -> Result<Vec<MipTexture>, String> {
-- 
2.43.0


From 0fec11464c4aa7d72b7aef33df1221d4e55715d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:32 +0000
Subject: [PATCH 20/25] fix: do not overflow when adding offsets in WAD files

---
 src/wad/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index d421177..674d65a 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -151,9 +151,9 @@ fn read_directory(
 ) -> Result<Vec<Entry>, String> {
     let entries: Result<Vec<Option<Entry>>, String> = (0..header.num_entries)
         .map(|i| {
-            let offset = header.dir_offset;
-            let offset = offset + i * ENTRY_BYTES as u32;
-            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset as u64)) {
+            let offset = header.dir_offset as u64;
+            let offset = offset + i as u64 * ENTRY_BYTES as u64;
+            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset)) {
                 return Err(format!("Error seeking to directory: {:?}", err));
             }
 
@@ -247,7 +247,7 @@ fn read_mip_data(
             };
 
             if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                (entry.offset + miptex.offset1) as u64,
+                entry.offset as u64 + miptex.offset1 as u64,
             )) {
                 return Err(format!("Error seeking to miptex: {:?}", err));
             }
@@ -322,7 +322,7 @@ fn read_mip_data(
                 WadType::WAD2 => palette = None,
                 WadType::WAD3 => {
                     if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                        (entry.offset + miptex.offset8 + (size3 as u32) + 2) as u64,
+                        entry.offset as u64 + miptex.offset8 as u64 + size3 as u64 + 2,
                     )) {
                         return Err(format!("Error seeking to texture palette: {:?}", err));
                     }
-- 
2.43.0


From 05778976b0319000f7cf8f3ea141aa67e1795d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:32 +0000
Subject: [PATCH 21/25] fix: check the size of WAD textures before allocating

Damaged sizes overflowed, or asked for more memory than there is.
---
 src/wad/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index 674d65a..696d1de 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -252,7 +252,17 @@ fn read_mip_data(
                 return Err(format!("Error seeking to miptex: {:?}", err));
             }
 
-            let size0 = (miptex.width * miptex.height) as usize;
+            let file_size = match wad_file.metadata() {
+                Ok(metadata) => metadata.len(),
+                Err(err) => return Err(format!("Error reading WAD file size: {:?}", err)),
+            };
+
+            let size0 = miptex.width as u64 * miptex.height as u64;
+            if size0 > file_size {
+                return Err(format!("Texture is larger than WAD file: {:?}", miptex));
+            }
+
+            let size0 = size0 as usize;
             let size1 = size0 / 4;
             let size2 = size1 / 4;
             let size3 = size2 / 4;
-- 
2.43.0


From 0b69c07c61906feab55853c2434e139b7858d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:58 +0000
Subject: [PATCH 22/25] fix: diff maps by a complete longest common subsequence

The last token of each map was ignored, empty maps panicked, and tokens that
occur anywhere in the common subsequence were never reported.
---
 src/map/quake/tokenizer.rs | 48 +++++++++++---------------------------
 1 file changed, 14 insertions(+), 34 deletions(-)

diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index dd0900b..9e1cba3 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -88,12 +88,9 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         v.resize(size_y + 1, 0);
     }
 
-    for index_x in 0..size_x {
-        for index_y in 0..size_y {
-            if index_x == 0 || index_y == 0 {
-                l[index_x][index_y] = 0;
-            }
-            else if tokens_a[index_x-1] == tokens_b[index_y-1] {
+    for index_x in 1..=size_x {
+        for index_y in 1..=size_y {
+            if tokens_a[index_x-1] == tokens_b[index_y-1] {
                 l[index_x][index_y] = l[index_x-1][index_y-1] + 1;
             }
             else {
@@ -102,45 +99,28 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         }
     }
 
-    let mut index = l[size_x-1][size_y-1];
-    let mut lcs: Vec<Option<&Token>> = Vec::new();
-    lcs.resize(index, None);
-
+    let mut added: Vec<&Token> = Vec::new();
+    let mut removed: Vec<&Token> = Vec::new();
 
-    let mut i = size_x - 1;
-    let mut j = size_y - 1;
-    while i > 0 && j > 0 {
-        if tokens_a[i-1] == tokens_b[j-1] {
-            lcs[index-1] = Some(&tokens_a[i-1]);
+    let mut i = size_x;
+    let mut j = size_y;
+    while i > 0 || j > 0 {
+        if i > 0 && j > 0 && tokens_a[i-1] == tokens_b[j-1] {
             i -= 1;
             j -= 1;
-            index -= 1;
         }
-        else if l[i-1][j] > l[i][j-1] {
+        else if j == 0 || (i > 0 && l[i-1][j] > l[i][j-1]) {
+            removed.push(&tokens_a[i-1]);
             i -= 1;
         }
         else {
+            added.push(&tokens_b[j-1]);
             j -= 1;
         }
     }
 
-    let lcs: Vec<&Token> = lcs.iter().map(|token| {
-        token.unwrap()
-    }).collect();
-
-    let mut removed: Vec<&Token> = Vec::new();
-    for token in tokens_a {
-        if lcs.iter().find(|comp| **comp == token).is_none() {
-            removed.push(token);
-        }
-    }
-
-    let mut added: Vec<&Token> = Vec::new();
-    for token in tokens_b {
-        if lcs.iter().find(|comp| **comp == token).is_none() {
-            added.push(token);
-        }
-    }
+    added.reverse();
+    removed.reverse();
 
     Diff::new(added, removed)
 }
\ No newline at end of file
-- 
2.43.0


From 57eb451e4c485a8b774293376b915f11fa9bab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:10 +0000
Subject: [PATCH 23/25] fix: compute brush corners in double precision

Where planes meet at small angles the triples of planes through one corner
gave different points, so corners were doubled or lost.
---
 src/geo_builder/brush_plane/vertices.rs | 70 ++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 13 deletions(-)

diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index 8c4c05c..728d7ef 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -8,23 +8,30 @@ pub fn intersect_brush_planes(
     p1: &BrushPlane,
     p2: &BrushPlane,
 ) -> Option<Vector3> {
-    let n0 = p0.normal();
-    let n1 = p1.normal();
-    let n2 = p2.normal();
+    let n0 = precise_normal(p0);
+    let n1 = precise_normal(p1);
+    let n2 = precise_normal(p2);
 
-    let denom = n0.cross(n1).dot(n2);
+    let denom = dot(cross(n0, n1), n2);
 
     // Also rules out planes without a normal
-    if denom.is_nan() || denom < CMP_EPSILON {
+    if denom.is_nan() || denom < f64::from(CMP_EPSILON) {
         return None;
     }
 
-    // Relative to a point on the first plane, so that rounding errors do not
-    // grow with the distance from the world origin
-    let d1 = n1.dot(p1.v0 - p0.v0);
-    let d2 = n2.dot(p2.v0 - p0.v0);
+    // Relative to a point on the first plane
+    let d1 = dot(n1, precise_sub(p1.v0, p0.v0));
+    let d2 = dot(n2, precise_sub(p2.v0, p0.v0));
 
-    Some(p0.v0 + (n2.cross(n0) * d1 + n0.cross(n1) * d2) / denom)
+    let c20 = cross(n2, n0);
+    let c01 = cross(n0, n1);
+    let coord = |i: usize, v: f32| (f64::from(v) + (c20[i] * d1 + c01[i] * d2) / denom) as f32;
+
+    Some(Vector3::new(
+        coord(0, p0.v0.x()),
+        coord(1, p0.v0.y()),
+        coord(2, p0.v0.z()),
+    ))
 }
 
 // More than three planes can meet in one corner, which each triple of them
@@ -34,15 +41,52 @@ pub fn same_vertex(lhs: Vector3, rhs: Vector3) -> bool {
 }
 
 pub fn vertex_on_plane(vertex: Vector3, plane: &BrushPlane) -> bool {
-    plane.normal().dot(vertex - plane.v0).abs() <= CMP_EPSILON
+    plane_distance(vertex, plane).abs() <= f64::from(CMP_EPSILON)
 }
 
 pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane]) -> bool {
     for brush_plane in hull {
-        let proj = brush_plane.normal().dot(vertex - brush_plane.v0);
-        if proj > CMP_EPSILON {
+        let proj = plane_distance(vertex, brush_plane);
+        if proj > f64::from(CMP_EPSILON) {
             return false;
         }
     }
     true
 }
+
+// Planes can meet at small angles, where the precision of Vector3 does not
+// suffice to find the same corner from each triple of planes
+type PreciseVector = [f64; 3];
+
+fn plane_distance(vertex: Vector3, plane: &BrushPlane) -> f64 {
+    dot(precise_normal(plane), precise_sub(vertex, plane.v0))
+}
+
+fn precise_normal(plane: &BrushPlane) -> PreciseVector {
+    let normal = cross(
+        precise_sub(plane.v2, plane.v0),
+        precise_sub(plane.v1, plane.v0),
+    );
+    let length = dot(normal, normal).sqrt();
+    [normal[0] / length, normal[1] / length, normal[2] / length]
+}
+
+fn precise_sub(lhs: Vector3, rhs: Vector3) -> PreciseVector {
+    [
+        f64::from(lhs.x()) - f64::from(rhs.x()),
+        f64::from(lhs.y()) - f64::from(rhs.y()),
+        f64::from(lhs.z()) - f64::from(rhs.z()),
+    ]
+}
+
+fn cross(lhs: PreciseVector, rhs: PreciseVector) -> PreciseVector {
+    [
+        lhs[1] * rhs[2] - lhs[2] * rhs[1],
+        lhs[2] * rhs[0] - lhs[0] * rhs[2],
+        lhs[0] * rhs[1] - lhs[1] * rhs[0],
+    ]
+}
+
+fn dot(lhs: PreciseVector, rhs: PreciseVector) -> f64 {
+    lhs[0] * rhs[0] + lhs[1] * rhs[1] + lhs[2] * rhs[2]
+}
-- 
2.43.0


From 308f53e7b0c3e5547475bd030856dedce06e87c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:56 +0000
Subject: [PATCH 24/25] fix: compute face normals in double precision

The normal of a face with very large coordinates overflowed, and the panic
for a face without a projection axis was reached.
---
 src/geo_builder/brush_plane/vertices.rs | 17 ++++------------
 src/map/quake/types/brush_plane.rs      | 26 ++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index 728d7ef..6b8a229 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -8,9 +8,9 @@ pub fn intersect_brush_planes(
     p1: &BrushPlane,
     p2: &BrushPlane,
 ) -> Option<Vector3> {
-    let n0 = precise_normal(p0);
-    let n1 = precise_normal(p1);
-    let n2 = precise_normal(p2);
+    let n0 = p0.precise_normal();
+    let n1 = p1.precise_normal();
+    let n2 = p2.precise_normal();
 
     let denom = dot(cross(n0, n1), n2);
 
@@ -59,16 +59,7 @@ pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane]) -> bool {
 type PreciseVector = [f64; 3];
 
 fn plane_distance(vertex: Vector3, plane: &BrushPlane) -> f64 {
-    dot(precise_normal(plane), precise_sub(vertex, plane.v0))
-}
-
-fn precise_normal(plane: &BrushPlane) -> PreciseVector {
-    let normal = cross(
-        precise_sub(plane.v2, plane.v0),
-        precise_sub(plane.v1, plane.v0),
-    );
-    let length = dot(normal, normal).sqrt();
-    [normal[0] / length, normal[1] / length, normal[2] / length]
+    dot(plane.precise_normal(), precise_sub(vertex, plane.v0))
 }
 
 fn precise_sub(lhs: Vector3, rhs: Vector3) -> PreciseVector {
diff --git a/src/map/quake/types/brush_plane.rs b/src/map/quake/types/brush_plane.rs
index c031866..171d786 100644
--- a/src/map/quake/types/brush_plane.rs
+++ b/src/map/quake/types/brush_plane.rs
@@ -186,9 +186,29 @@ impl BrushPlane {
     }
 
     pub fn normal(&self) -> Vector3 {
-        let v0v1 = self.v1 - self.v0;
-        let v0v2 = self.v2 - self.v0;
-        v0v2.cross(v0v1).normalize()
+        let [x, y, z] = self.precise_normal();
+        Vector3::new(x as f32, y as f32, z as f32)
+    }
+
+    /// The normal in double precision, which also covers the products of very
+    /// large or very small distances
+    pub fn precise_normal(&self) -> [f64; 3] {
+        let sub = |lhs: Vector3, rhs: Vector3| {
+            [
+                f64::from(lhs.x()) - f64::from(rhs.x()),
+                f64::from(lhs.y()) - f64::from(rhs.y()),
+                f64::from(lhs.z()) - f64::from(rhs.z()),
+            ]
+        };
+        let a = sub(self.v2, self.v0);
+        let b = sub(self.v1, self.v0);
+        let normal = [
+            a[1] * b[2] - a[2] * b[1],
+            a[2] * b[0] - a[0] * b[2],
+            a[0] * b[1] - a[1] * b[0],
+        ];
+        let length = normal.iter().map(|n| n * n).sum::<f64>().sqrt();
+        [normal[0] / length, normal[1] / length, normal[2] / length]
     }
 
     pub fn dist(&self) -> f32 {
-- 
2.43.0


From 16a8762079b07d22ccf0b1010ca77c7bda05b018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:58 +0000
Subject: [PATCH 25/25] fix: phong angles below zero or above half a turn
 wrapped around

A _phong_angle of 270 smoothed only faces up to 90 degrees, 360 none at all
and -60 those up to 60 degrees, because the cosine is compared.
---
 src/geo_builder/brush_plane/normals.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/normals.rs b/src/geo_builder/brush_plane/normals.rs
index 8beb3e5..7aa7e48 100644
--- a/src/geo_builder/brush_plane/normals.rs
+++ b/src/geo_builder/brush_plane/normals.rs
@@ -25,7 +25,8 @@ fn phong_normal(
 ) -> Vector3 {
     if let Some(phong_angle) = phong_angle {
         if let Ok(phong_angle) = phong_angle.parse::<f32>() {
-            let threshold = ((phong_angle + 0.01) * ONE_DEGREE).cos();
+            // The cosine falls only from no angle to half a turn
+            let threshold = ((phong_angle.max(0.0).min(180.0) + 0.01) * ONE_DEGREE).cos();
             let mut normal = p0.normal();
             for p1 in neighbors {
                 if p0.normal().dot(p1.normal()) > threshold {
-- 
2.43.0

