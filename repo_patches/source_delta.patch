From a62dcf059c2cf175611f3f7e4a9a5a028c8db5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 01/10] fix: indexed graham scan drops hull points when the
 start point is duplicated

A vertex with the same coordinates as the start point, but another index (e.g.
the closing point of a connected linestring) was not skipped. It sorts as angle
zero in the middle of the scan and makes it pop valid hull points.
---
 src/linestring_2d/convex_hull.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 071a8c1..b7d8193 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -804,10 +804,11 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     hull.push(start_index);
 
     for i in sorted_indices.iter() {
-        if *i == start_index {
+        let p = vertices[*i];
+        if p == start_point {
+            // skip the start point and any duplicates of it, they have no angle to sort by
             continue;
         }
-        let p = vertices[*i];
         while hull.len() > 1 {
             let last_in_hull = hull.len() - 1;
             let cross = cross_2d(
-- 
2.43.0


From 2a8503dad9635d2fb272a2e5d0beccdd6b7c2531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 02/10] fix: convex_hull_par returns wrong hulls, or hangs,
 depending on thread scheduling

combine_indexed_convex_hull() ended its search for the next hull point at the
first non-candidate following a candidate. That is not valid when the end point
found so far isn't the tangent point, so hull points were lost depending on how
rayon happened to split and fold the chunks (always, with a single worker
thread). With duplicated or collinear points the gift wrapping did not
terminate. Combine the partial hulls with a graham scan from the already known
start point instead: it always terminates and gives the same hull regardless of
how the chunks are paired.
---
 src/linestring_2d/convex_hull.rs       | 242 +------------------------
 src/linestring_2d/convex_hull/impls.rs |  55 ------
 2 files changed, 8 insertions(+), 289 deletions(-)
 delete mode 100644 src/linestring_2d/convex_hull/impls.rs

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index b7d8193..c9f3282 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -40,7 +40,6 @@ WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
 See the License for the specific language governing permissions and
 limitations under the License.
 */
-mod impls;
 #[cfg(test)]
 mod tests;
 
@@ -828,250 +827,25 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     Ok(hull)
 }
 
-/*
-/// Combines two convex hulls together as two point clouds using `indexed_gift_wrap_no_loop()`
-fn combine_indexed_convex_hull_lazy<T: GenericVector2>(
-    vertices: &[T],
-    indices_a: Result<Vec<usize>, LinestringError>,
-    indices_b: Result<Vec<usize>, LinestringError>,
-) -> Result<Vec<usize>, LinestringError> {
-    let mut indices_a = indices_a?;
-    let indices_b = indices_b?;
-
-    if indices_a.is_empty() {
-        return Ok(indices_b);
-    }
-    if indices_b.is_empty() {
-        return Ok(indices_a);
-    }
-
-    if indices_a.first().unwrap() == indices_b.first().unwrap() {
-        indices_a.extend(indices_b.iter().skip(1));
-    } else {
-        indices_a.extend(indices_b.iter());
-    }
-    indexed_graham_scan_no_loop(vertices, &indices_a, None)
-}*/
-
-/// a structure trying to keep track of from what list indices came from.
-#[derive(Clone)]
-struct VertexIndex {
-    /// `index_index` was from `indices_a` if true, else `indices_b`
-    from_a: bool,
-    /// the 'real' index into `vertices`
-    index: usize,
-    /// the index into `indices_a` or `indices_a`
-    index_index: usize,
-}
-
-/// Combines two convex hulls together using a modified gift wrapping algorithm.
-/// The algorithm goes like this.
-/// We keep track of from what list the start_point, point_on_hull and endpoint comes from.
-/// The algorithm is like gift-wrapping in that it keeps `point_on_hull` and `end_point` and iterates
-/// though a list of `j` candidates to try to find a better end-point.
-/// First it picks `end_point` to be from `ìndices_a`, then it iterates over `ìndices_b` trying to
-/// find a better `end_point`. If an end point is found in `ìndices_b` but another invalid one is
-/// found the inner loop ends.
+/// Combines two convex hulls together, `indices_a[0]` must be the start point of the combined hull,
+/// i.e. the point with the lowest x (and lowest y if x is equal) of both hulls.
 fn combine_indexed_convex_hull<T: GenericVector2>(
     vertices: &[T],
     indices_a: Result<Vec<usize>, LinestringError>,
     indices_b: Result<Vec<usize>, LinestringError>,
 ) -> Result<Vec<usize>, LinestringError> {
-    let indices_a = indices_a?;
+    let mut indices = indices_a?;
     let indices_b = indices_b?;
 
-    if indices_a.is_empty() {
+    if indices.is_empty() {
         return Ok(indices_b);
     }
     if indices_b.is_empty() {
-        return Ok(indices_a);
-    }
-
-    let starting_index = VertexIndex {
-        from_a: true,
-        index: indices_a[0],
-        index_index: 0,
-    };
-
-    let mut hull = Vec::with_capacity((indices_a.len() + indices_b.len()) / 4);
-    // To track visited points, it contain index, not index_index
-    //let mut visited = AHashSet::with_capacity(indices_a.len() + indices_b.len());
-    let mut point_on_hull = starting_index.clone();
-    /*println!(
-        "starting point {:?}:{:?}",
-        vertices[point_on_hull.index], point_on_hull
-    );*/
-    loop {
-        /*println!(
-            "loop: point_on_hull {:?}:{:?}",
-            vertices[point_on_hull.index], point_on_hull
-        );*/
-
-        hull.push(point_on_hull.index);
-        if point_on_hull.index != starting_index.index {
-            // don't mark the starting_point or we won't know where to stop
-            //let _ = visited.insert(point_on_hull.index);
-        }
-        let mut end_point = {
-            if point_on_hull.from_a {
-                let index_index = (point_on_hull.index_index + 1) % indices_a.len();
-                let index = indices_a[index_index];
-                if index != point_on_hull.index {
-                    VertexIndex {
-                        from_a: true,
-                        index: indices_a[index_index],
-                        index_index,
-                    }
-                } else {
-                    // this is sus, this is just the first point from hull B
-                    VertexIndex {
-                        from_a: false,
-                        index: indices_b[0],
-                        index_index: 0,
-                    }
-                }
-            } else {
-                let index_index = (point_on_hull.index_index + 1) % indices_b.len();
-                let index = indices_b[index_index];
-                if index != point_on_hull.index {
-                    VertexIndex {
-                        from_a: false,
-                        index: indices_b[index_index],
-                        index_index,
-                    }
-                } else {
-                    // this is sus, this is just the first point from hull A
-                    VertexIndex {
-                        from_a: true,
-                        index: indices_a[0],
-                        index_index: 0,
-                    }
-                }
-            }
-        };
-        /*println!(
-            "loop: end_point  {:?}:{:?}",
-            vertices[end_point.index], end_point
-        );*/
-
-        if point_on_hull.from_a {
-            // when we have found a good end_point from indices_b and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_b_point = false;
-            for (jj, j) in indices_b.iter().enumerate() {
-                let j = *j;
-
-                if j == point_on_hull.index || j == end_point.index
-                /*|| visited.contains(&j)*/
-                {
-                    continue;
-                }
-
-                let orient = point_orientation(
-                    vertices[point_on_hull.index],
-                    vertices[end_point.index],
-                    vertices[j],
-                );
-                if orient == Orientation::Right {
-                    // replace end_point with the candidate if candidate is to the right,
-                    end_point.index_index = jj;
-                    end_point.index = j;
-                    end_point.from_a = false;
-                    found_a_legit_b_point = true;
-                } else if orient == Orientation::Collinear {
-                    let distance_sq_candidate =
-                        vertices[point_on_hull.index].distance_sq(vertices[j]);
-                    let distance_sq_end_point =
-                        vertices[point_on_hull.index].distance_sq(vertices[end_point.index]);
-
-                    if distance_sq_candidate > distance_sq_end_point {
-                        // if point_on_hull->end_point && point_on_hull->candidate are collinear and
-                        // the distance to the collinear is greater we also update end_point
-                        end_point.index_index = jj;
-                        end_point.index = j;
-                        end_point.from_a = false;
-                        found_a_legit_b_point = true;
-                    } else if j != starting_index.index {
-                        // This is a collinear point that is closer to the current point, mark it as visited
-                        //let _ = visited.insert(j);
-                    }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_b_point {
-                        break;
-                    }
-                }
-            }
-        } else {
-            // when we have found a good end_point from indices_a and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_a_point = false;
-            for (jj, j) in indices_a.iter().enumerate() {
-                let j = *j;
-
-                if j == point_on_hull.index || j == end_point.index
-                /*|| visited.contains(&j)*/
-                {
-                    continue;
-                }
-
-                let orient = point_orientation(
-                    vertices[point_on_hull.index],
-                    vertices[end_point.index],
-                    vertices[j],
-                );
-                if orient == Orientation::Right {
-                    // replace end_point with the candidate if candidate is to the right,
-                    end_point.index_index = jj;
-                    end_point.index = j;
-                    end_point.from_a = true;
-                    found_a_legit_a_point = true;
-                } else if orient == Orientation::Collinear {
-                    let distance_sq_candidate =
-                        vertices[point_on_hull.index].distance_sq(vertices[j]);
-                    let distance_sq_end_point =
-                        vertices[point_on_hull.index].distance_sq(vertices[end_point.index]);
-
-                    if distance_sq_candidate > distance_sq_end_point {
-                        // if point_on_hull->end_point && point_on_hull->candidate are collinear and
-                        // the distance to the collinear is greater we also update end_point
-                        end_point.index_index = jj;
-                        end_point.index = j;
-                        end_point.from_a = true;
-                        found_a_legit_a_point = true;
-                    } else if j != starting_index.index {
-                        // This is a collinear point that is closer to the current point, mark it as visited
-                        //let _ = visited.insert(j);
-                    }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_a_point {
-                        break;
-                    }
-                }
-            }
-        }
-        /*println!(
-            "end of loop: end_point  {:?}:{:?}",
-            vertices[end_point.index], end_point
-        );
-        println!();
-         */
-        point_on_hull = end_point.clone();
-        if end_point.index == starting_index.index {
-            break;
-        }
+        return Ok(indices);
     }
-    //println!("visited:{:?}", visited);
-    /*println!("indexed_gift_wrap:");
-    println!("starting_index {:?}", input_indices[starting_index]);
-    println!("input {:?}", input_vertices);
-    println!("input indices {:?}", input_indices);
-    println!("result {:?}", hull);*/
-
-    Ok(hull)
+    let start_index = indices[0];
+    indices.extend(indices_b);
+    indexed_graham_scan_no_loop(vertices, &indices, Some(start_index))
 }
 
 /// Finds the convex hull using a parallel version of Graham's scan, similar to Chan's
diff --git a/src/linestring_2d/convex_hull/impls.rs b/src/linestring_2d/convex_hull/impls.rs
deleted file mode 100644
index f235a1d..0000000
--- a/src/linestring_2d/convex_hull/impls.rs
+++ /dev/null
@@ -1,55 +0,0 @@
-// SPDX-License-Identifier: MIT OR Apache-2.0
-// Copyright (c) 2021,2023 lacklustr@protonmail.com https://github.com/eadf
-
-// This file is part of the linestring crate.
-
-/*
-Copyright (c) 2021,2023 lacklustr@protonmail.com https://github.com/eadf
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-
-or
-
-Copyright 2021,2023 lacklustr@protonmail.com https://github.com/eadf
-
-Licensed under the Apache License, Version 2.0 (the "License");
-you may not use this file except in compliance with the License.
-You may obtain a copy of the License at
-
-    http://www.apache.org/licenses/LICENSE-2.0
-
-Unless required by applicable law or agreed to in writing, software
-distributed under the License is distributed on an "AS IS" BASIS,
-WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-See the License for the specific language governing permissions and
-limitations under the License.
-*/
-//! A module containing boiler-plate implementations of standard traits such as Default, From etc etc
-
-use crate::linestring_2d::convex_hull::VertexIndex;
-use std::{fmt, fmt::Debug};
-
-impl Debug for VertexIndex {
-    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        match self.from_a {
-            true => write!(f, "{}A{}", self.index, self.index_index),
-            false => write!(f, "{}B{}", self.index, self.index_index),
-        }
-    }
-}
-- 
2.43.0


From 73dca988c4a766d72984559b3558c50564e70cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 03/10] fix: convex_hull_par returns an open hull for two or
 three points

The documentation promises a closed list, and indexed_graham_scan() delivers it.
---
 src/linestring_2d/convex_hull.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index c9f3282..430d3c3 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -908,21 +908,9 @@ pub fn convex_hull_par<T: GenericVector2>(
         // disregard the duplicated loop point if it exists
         indices = &indices[0..indices.len() - 1];
     }
-    if indices.len() <= 2 {
-        return Ok(indices.to_vec());
-    }
-    if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
-            // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
-            // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
+    if indices.len() <= 3 {
+        // too few points to divide into chunks
+        return indexed_graham_scan(vertices, indices);
     }
 
     // Create chunks of indices
-- 
2.43.0


From 4eb0842f48207d3b389be0279385edb8073f2ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 04/10] fix: indexed convex hull functions accept infinite and
 NaN vertex components

The documentation promises an error for them, but only a NaN x-coordinate was
detected. Any other non finite component silently resulted in a bogus hull.
---
 src/linestring_2d/convex_hull.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 430d3c3..59e1786 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -47,7 +47,11 @@ use crate::{linestring_2d::LineString2, LinestringError};
 use itertools::Itertools;
 use rayon::prelude::*;
 use std::cmp::Ordering;
-use vector_traits::{approx::ulps_eq, num_traits::real::Real, GenericScalar, GenericVector2};
+use vector_traits::{
+    approx::ulps_eq,
+    num_traits::{float::FloatCore, real::Real},
+    GenericScalar, GenericVector2,
+};
 
 #[derive(PartialEq, Clone, Copy)]
 pub enum Orientation {
@@ -123,6 +127,18 @@ fn indexed_find_lowest_x<T: GenericVector2>(
         ));
     }
 
+    if let Some(index) = indices
+        .iter()
+        .find(|i| !(vertices[**i].x().is_finite() && vertices[**i].y().is_finite()))
+    {
+        return Err(LinestringError::InvalidData(format!(
+            "Vertex {} is not finite ({},{})",
+            index,
+            vertices[*index].x(),
+            vertices[*index].y()
+        )));
+    }
+
     let mut min_idx_idx = 0;
     let mut min_val = vertices[indices[min_idx_idx]];
 
-- 
2.43.0


From cbed3463ffb3eb4fe15a9060f6d9241b2756aeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 05/10] fix: sweep-line intersection results depend on the
 random hash seed

The active lines were iterated in hash order, so the calculated position of an
intersection differed in the last bits between two identical calls whenever
candidates tied. Keep the active lines in an ordered set.
---
 src/linestring_2d/indexed_intersection.rs | 13 +++++++++----
 src/linestring_2d/intersection.rs         | 11 +++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index d6c41d2..7ac4dff 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -45,9 +45,14 @@ limitations under the License.
 mod tests;
 
 use crate::{linestring_2d::Line2, LinestringError};
-use ahash::AHashSet;
 use smallvec::{smallvec, SmallVec};
-use std::{cmp::Ordering, collections::BTreeMap, convert::identity, fmt, fmt::Debug};
+use std::{
+    cmp::Ordering,
+    collections::{BTreeMap, BTreeSet},
+    convert::identity,
+    fmt,
+    fmt::Debug,
+};
 use vector_traits::{approx::*, num_traits::float::FloatCore, GenericScalar, GenericVector2};
 
 #[derive(Clone, Copy)]
@@ -635,7 +640,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
                 "compute() could not take ownership of 'site_events'".to_string(),
             )
         })?;
-        let mut active_lines = AHashSet::<usize>::with_capacity(site_events.len());
+        let mut active_lines = BTreeSet::<usize>::default();
         // A list of intersection points and the line segments involved in each intersection
         let mut result: BTreeMap<SiteEventKey<T>, Vec<usize>> = BTreeMap::default();
         // The 'best' lines surrounding the event point but not directly connected to the point.
@@ -699,7 +704,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
         &mut self,
         key: &SiteEventKey<T>,
         event: &SiteEvent,
-        active_lines: &mut AHashSet<usize>,
+        active_lines: &mut BTreeSet<usize>,
         neighbour_priority: &mut MinMax<T>,
         connected_priority: &mut MinMaxSlope<T>,
         site_events: &mut BTreeMap<SiteEventKey<T>, SiteEvent>,
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index e1fa8c3..cd69a9f 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -42,8 +42,11 @@ limitations under the License.
 */
 
 use crate::{linestring_2d, LinestringError};
-use ahash::AHashSet;
-use std::{cmp::Ordering, collections::BTreeMap, convert::identity};
+use std::{
+    cmp::Ordering,
+    collections::{BTreeMap, BTreeSet},
+    convert::identity,
+};
 use vector_traits::{
     approx,
     approx::{AbsDiffEq, UlpsEq},
@@ -558,7 +561,7 @@ impl<T: GenericVector2> IntersectionData<T> {
     ) -> Result<impl ExactSizeIterator<Item = (T, Vec<usize>)>, LinestringError> {
         // make the borrow checker happy by breaking the link between self and all the
         // containers and their iterators.
-        let mut active_lines = AHashSet::<usize>::default();
+        let mut active_lines = BTreeSet::<usize>::default();
         let mut site_events = self.site_events.take().ok_or_else(|| {
             LinestringError::InternalError("compute() could not take 'site_events'".to_string())
         })?;
@@ -620,7 +623,7 @@ impl<T: GenericVector2> IntersectionData<T> {
         &mut self,
         key: &SiteEventKey<T>,
         event: &SiteEvent,
-        active_lines: &mut AHashSet<usize>,
+        active_lines: &mut BTreeSet<usize>,
         neighbour_priority: &mut MinMax<T>,
         connected_priority: &mut MinMaxSlope<T>,
         site_events: &mut BTreeMap<SiteEventKey<T>, SiteEvent>,
-- 
2.43.0


From a2cb36ff6056f3a9e20eabb62d453281742d55f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:57 +0000
Subject: [PATCH 06/10] fix: sweep-line input given in several calls is
 numbered from zero again

with_lines() and with_edges() numbered the lines of every call from zero, although
the lines are kept in one list: a second call made the events of earlier lines refer
to the wrong lines, so that intersections were lost, or reported for the wrong lines.
---
 src/linestring_2d/indexed_intersection.rs | 3 ++-
 src/linestring_2d/intersection.rs         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 7ac4dff..70b7cd2 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -510,7 +510,8 @@ impl<T: GenericVector2> IntersectionTester<T> {
             LinestringError::InternalError("with_lines() could not take 'site_events'".to_string())
         })?;
 
-        for (index, aline) in input_iter.into_iter().enumerate() {
+        // edges added by earlier calls keep their numbers
+        for (index, aline) in (self.lines.len()..).zip(input_iter) {
             let mut start_index = aline.0;
             let mut start = self.vertices[start_index];
             let mut end_index = aline.1;
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index cd69a9f..05bbbaf 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -458,7 +458,8 @@ impl<T: GenericVector2> IntersectionData<T> {
             LinestringError::InternalError("with_lines() could not take 'site_events'".to_string())
         })?;
 
-        for (index, mut aline) in input_iter.enumerate() {
+        // lines added by earlier calls keep their numbers
+        for (index, mut aline) in (self.lines.len()..).zip(input_iter) {
             if !(aline.start.x().is_finite()
                 && aline.start.y().is_finite()
                 && aline.end.x().is_finite()
-- 
2.43.0


From 4328314b6e34882cbbe3756f1b721584f14355ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:28 +0000
Subject: [PATCH 07/10] fix: Ramer-Douglas-Peucker simplification must not
 exhaust the stack

The recursion is as deep as there are points for zigzags and spirals: 20000
points end the process in a thread with the default stack of 2 MiB, 50000 in
the main thread. Keep the parts still to do in a Vec instead.
---
 src/linestring_2d.rs          |   2 +-
 src/linestring_2d/simplify.rs | 160 +++++++++++++++++-----------------
 src/linestring_3d/simplify.rs | 156 ++++++++++++++++-----------------
 3 files changed, 159 insertions(+), 159 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 65504a2..4c3c4ea 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -979,7 +979,7 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
 
         let mut rv: Vec<T> = Vec::with_capacity(self.len());
         rv.push(self[0]);
-        simplify::simplify_rdp_recursive(&mut rv, self, distance_predicate * distance_predicate);
+        simplify::simplify_rdp_inner(&mut rv, self, distance_predicate * distance_predicate);
         rv
     }
 
diff --git a/src/linestring_2d/simplify.rs b/src/linestring_2d/simplify.rs
index 8414624..e8b16bc 100644
--- a/src/linestring_2d/simplify.rs
+++ b/src/linestring_2d/simplify.rs
@@ -47,42 +47,47 @@ use std::collections::BinaryHeap;
 use vector_traits::{GenericScalar, GenericVector2};
 
 /// The actual implementation of rdp
-pub(super) fn simplify_rdp_recursive<T: GenericVector2>(
+/// Uses a stack of its own: the depth of a recursion can be in proportion to the number of points.
+pub(super) fn simplify_rdp_inner<T: GenericVector2>(
     rv: &mut Vec<T>,
     points: &[T],
     distance_predicate_sq: T::Scalar,
 ) {
-    if points.len() <= 2 {
-        rv.push(*points.last().unwrap());
-        return;
-    }
+    // the parts still to do, the next one last
+    let mut todo = vec![points];
+    while let Some(points) = todo.pop() {
+        if points.len() <= 2 {
+            rv.push(*points.last().unwrap());
+            continue;
+        }
 
-    let start_point = points[0];
-    let end_point = points[points.len() - 1];
-
-    let (max_dist_sq, index) = points
-        .iter()
-        .enumerate()
-        .skip(1)
-        .take(points.len() - 2)
-        .map(|(i, &point)| {
-            (
-                super::distance_to_line_squared_safe(start_point, end_point, point),
-                i,
-            )
-        })
-        .max_by(|(dist1, _), (dist2, _)| {
-            dist1
-                .partial_cmp(dist2)
-                .unwrap_or(std::cmp::Ordering::Equal)
-        })
-        .unwrap_or((-T::Scalar::ONE, 0)); // default that's unlikely to be used
-
-    if max_dist_sq <= distance_predicate_sq {
-        rv.push(end_point);
-    } else {
-        simplify_rdp_recursive(rv, &points[..index + 1], distance_predicate_sq);
-        simplify_rdp_recursive(rv, &points[index..], distance_predicate_sq);
+        let start_point = points[0];
+        let end_point = points[points.len() - 1];
+
+        let (max_dist_sq, index) = points
+            .iter()
+            .enumerate()
+            .skip(1)
+            .take(points.len() - 2)
+            .map(|(i, &point)| {
+                (
+                    super::distance_to_line_squared_safe(start_point, end_point, point),
+                    i,
+                )
+            })
+            .max_by(|(dist1, _), (dist2, _)| {
+                dist1
+                    .partial_cmp(dist2)
+                    .unwrap_or(std::cmp::Ordering::Equal)
+            })
+            .unwrap_or((-T::Scalar::ONE, 0)); // default that's unlikely to be used
+
+        if max_dist_sq <= distance_predicate_sq {
+            rv.push(end_point);
+        } else {
+            todo.push(&points[index..]);
+            todo.push(&points[..index + 1]);
+        }
     }
 }
 
@@ -140,7 +145,7 @@ pub fn indexed_simplify_rdp<T: GenericVector2>(
     let mut simplified_indices = Vec::new();
     simplified_indices.push(indices[0]);
 
-    indexed_simplify_rdp_recursive(
+    indexed_simplify_rdp_inner(
         &mut simplified_indices,
         vertices,
         indices,
@@ -151,61 +156,56 @@ pub fn indexed_simplify_rdp<T: GenericVector2>(
 }
 
 /// The actual implementation of the indexed rdp
-fn indexed_simplify_rdp_recursive<T: GenericVector2>(
+/// Uses a stack of its own: the depth of a recursion can be in proportion to the number of points.
+fn indexed_simplify_rdp_inner<T: GenericVector2>(
     simplified_indices: &mut Vec<usize>,
     vertices: &[T],
     indices: &[usize],
     distance_predicate_sq: T::Scalar,
 ) {
-    //println!(">indices:{:?} len:{}", indices, indices.len());
-    if indices.len() <= 2 {
-        simplified_indices.push(*indices.last().unwrap());
-        return;
-    }
+    // the parts still to do, the next one last
+    let mut todo = vec![indices];
+    while let Some(indices) = todo.pop() {
+        //println!(">indices:{:?} len:{}", indices, indices.len());
+        if indices.len() <= 2 {
+            simplified_indices.push(*indices.last().unwrap());
+            continue;
+        }
 
-    let start_index = indices[0];
-    let end_index = indices[indices.len() - 1];
-
-    let (max_dist_sq, index_index) = indices
-        .iter()
-        .enumerate()
-        .skip(1)
-        .take(indices.len() - 2)
-        .map(|(i, &point_i)| {
-            //assert_eq!(point_i, indices[i]);
-            (
-                super::distance_to_line_squared_safe(
-                    vertices[start_index],
-                    vertices[end_index],
-                    vertices[point_i],
-                ),
-                i,
-            )
-        })
-        .max_by(|(dist1, _), (dist2, _)| {
-            dist1
-                .partial_cmp(dist2)
-                .unwrap_or(std::cmp::Ordering::Equal)
-        })
-        .unwrap_or((-T::Scalar::ONE, 0)); // default that's unlikely to be used
-                                          //println!("max dist:{:?}, index_index:{}, simplified_indices:{:?}", max_dist_sq, index_index, simplified_indices);
-    if max_dist_sq <= distance_predicate_sq {
-        simplified_indices.push(end_index);
-    } else {
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[..=index_index],
-            distance_predicate_sq,
-        );
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[index_index..],
-            distance_predicate_sq,
-        );
+        let start_index = indices[0];
+        let end_index = indices[indices.len() - 1];
+
+        let (max_dist_sq, index_index) = indices
+            .iter()
+            .enumerate()
+            .skip(1)
+            .take(indices.len() - 2)
+            .map(|(i, &point_i)| {
+                //assert_eq!(point_i, indices[i]);
+                (
+                    super::distance_to_line_squared_safe(
+                        vertices[start_index],
+                        vertices[end_index],
+                        vertices[point_i],
+                    ),
+                    i,
+                )
+            })
+            .max_by(|(dist1, _), (dist2, _)| {
+                dist1
+                    .partial_cmp(dist2)
+                    .unwrap_or(std::cmp::Ordering::Equal)
+            })
+            .unwrap_or((-T::Scalar::ONE, 0)); // default that's unlikely to be used
+                                              //println!("max dist:{:?}, index_index:{}, simplified_indices:{:?}", max_dist_sq, index_index, simplified_indices);
+        if max_dist_sq <= distance_predicate_sq {
+            simplified_indices.push(end_index);
+        } else {
+            todo.push(&indices[index_index..]);
+            todo.push(&indices[..=index_index]);
+        }
+        //println!("<");
     }
-    //println!("<");
 }
 
 /// Simplify using Visvalingam–Whyatt algorithm. This algorithm will delete 'points_to_delete'
diff --git a/src/linestring_3d/simplify.rs b/src/linestring_3d/simplify.rs
index a3a6a93..47f1e3f 100644
--- a/src/linestring_3d/simplify.rs
+++ b/src/linestring_3d/simplify.rs
@@ -12,47 +12,52 @@ pub(super) fn simplify_rdp<T: GenericVector3>(line: &[T], distance_predicate: T:
 
     let mut rv: Vec<T> = Vec::with_capacity(line.len());
     rv.push(line[0]);
-    simplify_rdp_recursive(&mut rv, line, distance_predicate * distance_predicate);
+    simplify_rdp_inner(&mut rv, line, distance_predicate * distance_predicate);
     rv
 }
 
 /// The actual implementation of rdp
-fn simplify_rdp_recursive<T: GenericVector3>(
+/// Uses a stack of its own: the depth of a recursion can be in proportion to the number of points.
+fn simplify_rdp_inner<T: GenericVector3>(
     rv: &mut Vec<T>,
     points: &[T],
     distance_predicate_sq: T::Scalar,
 ) {
-    if points.len() <= 2 {
-        rv.push(*points.last().unwrap());
-        return;
-    }
+    // the parts still to do, the next one last
+    let mut todo = vec![points];
+    while let Some(points) = todo.pop() {
+        if points.len() <= 2 {
+            rv.push(*points.last().unwrap());
+            continue;
+        }
 
-    let start_point = points[0];
-    let end_point = points[points.len() - 1];
+        let start_point = points[0];
+        let end_point = points[points.len() - 1];
 
-    let (max_dist_sq, index) = points
-        .iter()
-        .enumerate()
-        .skip(1)
-        .take(points.len() - 2)
-        .map(|(i, &point)| {
-            (
-                super::distance_to_line_squared_safe(start_point, end_point, point),
-                i,
-            )
-        })
-        .max_by(|(dist1, _), (dist2, _)| {
-            dist1
-                .partial_cmp(dist2)
-                .unwrap_or(std::cmp::Ordering::Equal)
-        })
-        .unwrap_or((-T::Scalar::ONE, 0)); // default that's unlikely to be used
+        let (max_dist_sq, index) = points
+            .iter()
+            .enumerate()
+            .skip(1)
+            .take(points.len() - 2)
+            .map(|(i, &point)| {
+                (
+                    super::distance_to_line_squared_safe(start_point, end_point, point),
+                    i,
+                )
+            })
+            .max_by(|(dist1, _), (dist2, _)| {
+                dist1
+                    .partial_cmp(dist2)
+                    .unwrap_or(std::cmp::Ordering::Equal)
+            })
+            .unwrap_or((-T::Scalar::ONE, 0)); // default that's unlikely to be used
 
-    if max_dist_sq <= distance_predicate_sq {
-        rv.push(end_point);
-    } else {
-        simplify_rdp_recursive(rv, &points[..index + 1], distance_predicate_sq);
-        simplify_rdp_recursive(rv, &points[index..], distance_predicate_sq);
+        if max_dist_sq <= distance_predicate_sq {
+            rv.push(end_point);
+        } else {
+            todo.push(&points[index..]);
+            todo.push(&points[..index + 1]);
+        }
     }
 }
 
@@ -244,7 +249,7 @@ pub fn indexed_simplify_rdp<T: GenericVector3>(
     let mut simplified_indices = Vec::new();
     simplified_indices.push(indices[0]);
 
-    indexed_simplify_rdp_recursive(
+    indexed_simplify_rdp_inner(
         &mut simplified_indices,
         vertices,
         indices,
@@ -255,60 +260,55 @@ pub fn indexed_simplify_rdp<T: GenericVector3>(
 }
 
 /// The actual implementation of the indexed rdp
+/// Uses a stack of its own: the depth of a recursion can be in proportion to the number of points.
 // todo: this code is identical to the 2d version, can it be consolidated?
-fn indexed_simplify_rdp_recursive<T: GenericVector3>(
+fn indexed_simplify_rdp_inner<T: GenericVector3>(
     simplified_indices: &mut Vec<usize>,
     vertices: &[T],
     indices: &[usize],
     distance_predicate_sq: T::Scalar,
 ) {
-    //println!(">indices:{:?} len:{}", indices, indices.len());
-    if indices.len() <= 2 {
-        simplified_indices.push(*indices.last().unwrap());
-        return;
-    }
+    // the parts still to do, the next one last
+    let mut todo = vec![indices];
+    while let Some(indices) = todo.pop() {
+        //println!(">indices:{:?} len:{}", indices, indices.len());
+        if indices.len() <= 2 {
+            simplified_indices.push(*indices.last().unwrap());
+            continue;
+        }
 
-    let start_index = indices[0];
-    let end_index = indices[indices.len() - 1];
+        let start_index = indices[0];
+        let end_index = indices[indices.len() - 1];
 
-    let (max_dist_sq, index_index) = indices
-        .iter()
-        .enumerate()
-        .skip(1)
-        .take(indices.len() - 2)
-        .map(|(i, &point_i)| {
-            //assert_eq!(point_i, indices[i]);
-            (
-                super::distance_to_line_squared_safe(
-                    vertices[start_index],
-                    vertices[end_index],
-                    vertices[point_i],
-                ),
-                i,
-            )
-        })
-        .max_by(|(dist1, _), (dist2, _)| {
-            dist1
-                .partial_cmp(dist2)
-                .unwrap_or(std::cmp::Ordering::Equal)
-        })
-        .unwrap_or((-T::Scalar::ONE, 0)); // default that's unlikely to be used
-                                          //println!("max dist:{:?}, index_index:{}, simplified_indices:{:?}", max_dist_sq, index_index, simplified_indices);
-    if max_dist_sq <= distance_predicate_sq {
-        simplified_indices.push(end_index);
-    } else {
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[..=index_index],
-            distance_predicate_sq,
-        );
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[index_index..],
-            distance_predicate_sq,
-        );
+        let (max_dist_sq, index_index) = indices
+            .iter()
+            .enumerate()
+            .skip(1)
+            .take(indices.len() - 2)
+            .map(|(i, &point_i)| {
+                //assert_eq!(point_i, indices[i]);
+                (
+                    super::distance_to_line_squared_safe(
+                        vertices[start_index],
+                        vertices[end_index],
+                        vertices[point_i],
+                    ),
+                    i,
+                )
+            })
+            .max_by(|(dist1, _), (dist2, _)| {
+                dist1
+                    .partial_cmp(dist2)
+                    .unwrap_or(std::cmp::Ordering::Equal)
+            })
+            .unwrap_or((-T::Scalar::ONE, 0)); // default that's unlikely to be used
+                                              //println!("max dist:{:?}, index_index:{}, simplified_indices:{:?}", max_dist_sq, index_index, simplified_indices);
+        if max_dist_sq <= distance_predicate_sq {
+            simplified_indices.push(end_index);
+        } else {
+            todo.push(&indices[index_index..]);
+            todo.push(&indices[..=index_index]);
+        }
+        //println!("<");
     }
-    //println!("<");
 }
-- 
2.43.0


From 6c1d90413bf1d5a0e6db1f6ab9e328ca1173bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:09 +0000
Subject: [PATCH 08/10] fix: the error that convex_hull_par returns depends on
 thread scheduling

---
 src/linestring_2d/convex_hull.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 59e1786..7e59943 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -939,6 +939,10 @@ pub fn convex_hull_par<T: GenericVector2>(
             .map(|chunk| {
                 indexed_find_lowest_x(vertices, chunk).map(|(index_index, _)| chunk[index_index])
             })
+            // collect all results first: the error of the first faulty chunk is the one to return,
+            // not the one that happened to be found first
+            .collect::<Vec<_>>()
+            .into_iter()
             .collect::<Result<Vec<usize>, LinestringError>>()?;
         //println!("start_indexes:{:?}", start_indexes);
 
-- 
2.43.0


From 9d5d25cb84b55c8c04f77151dcb5db9f08b3646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 09/10] fix: discretize skips points and recurses per segment
 for an infinite or invalid distance

---
 src/linestring_2d.rs | 4 +++-
 src/linestring_3d.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 4c3c4ea..26e5f78 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -1603,7 +1603,9 @@ impl<'a, T: GenericVector2> DiscreteLineSegmentIterator<'a, T> {
         let direction = end_point - start_point;
         let segment_length = direction.magnitude();
         if segment_length > T::Scalar::ZERO {
-            let num_substeps = (segment_length / self.distance).ceil();
+            // every segment has at least one step, also if it is shorter than any positive
+            // fraction of `distance`, or if `distance` is not a positive number
+            let num_substeps = (segment_length / self.distance).ceil().max(T::Scalar::ONE);
             self.num_substeps = num_substeps.as_();
             self.step = direction / num_substeps;
         } else {
diff --git a/src/linestring_3d.rs b/src/linestring_3d.rs
index d4d2028..6e3d3f7 100644
--- a/src/linestring_3d.rs
+++ b/src/linestring_3d.rs
@@ -728,7 +728,9 @@ impl<'a, T: GenericVector3> DiscreteLineSegmentIterator<'a, T> {
         let direction = end_point - start_point;
         let segment_length = direction.magnitude();
         if segment_length > T::Scalar::ZERO {
-            let num_substeps = (segment_length / self.distance).ceil();
+            // every segment has at least one step, also if it is shorter than any positive
+            // fraction of `distance`, or if `distance` is not a positive number
+            let num_substeps = (segment_length / self.distance).ceil().max(T::Scalar::ONE);
             self.num_substeps = num_substeps.as_();
             self.step = direction / num_substeps;
         } else {
-- 
2.43.0


From bdd801a3d0889640b2ecef7c5cfa97c6829e55c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:30 +0000
Subject: [PATCH 10/10] fix: the scan of each chunk reserves memory for all
 vertices

convex_hull_par keeps many partial hulls at a time on a large pool, and each had
room for as many indices as there are vertices in total.
---
 src/linestring_2d/convex_hull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 7e59943..a281f45 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -815,7 +815,7 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
         .map(|a| a.0)
         .collect();
 
-    let mut hull = Vec::<usize>::with_capacity(vertices.len());
+    let mut hull = Vec::<usize>::with_capacity(indices.len());
     hull.push(start_index);
 
     for i in sorted_indices.iter() {
-- 
2.43.0

