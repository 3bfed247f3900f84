From 4bba184971eb4e48e66e699edea9c69f2783dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 01/62] fix: bin cartesian positions into the cell that
 contains them

cell_id scaled with cells - 1, so positions were sorted into cells other than
the one given by the cell positions, and the last cell of every axis was only
reached by positions exactly at the upper limit.
---
 src/grid/cartesian_grid.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 254e5b3..8557be1 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -135,13 +135,18 @@ impl GridFunctions3D for CartesianGrid3D {
             ));
         }
         let cell_idx = ((pos[0] - self.limits[0][0]) / (self.limits[0][1] - self.limits[0][0])
-            * (self.cells[0] - 1) as f64) as usize;
+            * self.cells[0] as f64) as usize;
         let cell_idy = ((pos[1] - self.limits[1][0]) / (self.limits[1][1] - self.limits[1][0])
-            * (self.cells[1] - 1) as f64) as usize;
+            * self.cells[1] as f64) as usize;
         let cell_idz = ((pos[2] - self.limits[2][0]) / (self.limits[2][1] - self.limits[2][0])
-            * (self.cells[2] - 1) as f64) as usize;
-
-        Ok([cell_idx, cell_idy, cell_idz])
+            * self.cells[2] as f64) as usize;
+
+        // the upper limit belongs to the last cell
+        Ok([
+            cell_idx.min(self.cells[0] - 1),
+            cell_idy.min(self.cells[1] - 1),
+            cell_idz.min(self.cells[2] - 1),
+        ])
     }
     #[allow(dead_code, unused_variables, unreachable_code)]
     fn cell_ids_in_trajectory(
-- 
2.43.0


From 37d03743ef69383997cc7ff6c386295b229f272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 02/62] fix: bin cylindrical positions into the cell that
 contains them

cell_id took the nearest upper cell boundary for angle and height, which made
the first cell half a cell too large and the last one half a cell too small.
Positions outside of the grid height ended up in the outermost cells and
positions outside of the radius caused a panic; both are now an error, as for
the cartesian grid.
---
 src/grid/cylindrical_grid.rs | 55 +++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 076fa23..84593c9 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -7,7 +7,7 @@ use ndarray::{prelude::*, RemoveAxis};
 use ndarray_stats::QuantileExt;
 use std::any::Any;
 
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 // TODO
 // - Currently the cylinder is always vertical, but this should be configurable.
 #[derive(Getters, Clone, Default)]
@@ -129,6 +129,18 @@ impl CylindricalGrid3D {
         print_debug!("Cart to cyl: {:?}-->{:?}", pos, [r, theta, z]);
         [r, theta, z]
     }
+
+    /// Cell along one axis (0: radius, 1: angle, 2: height) that contains a coordinate inside the
+    /// limits. The positions are the upper boundaries of the cells.
+    fn axis_cell(&self, axis: usize, coord: f64) -> usize {
+        let cell = match axis {
+            0 => self.rpositions.iter().position(|r| coord < r[1]),
+            1 => self.opositions.iter().position(|o| coord < *o),
+            _ => self.zpositions.iter().position(|z| coord < *z),
+        };
+        // the upper limit belongs to the last cell
+        cell.unwrap_or(self.cells[axis] - 1)
+    }
 }
 
 impl std::fmt::Debug for CylindricalGrid3D {
@@ -187,35 +199,20 @@ impl GridFunctions3D for CylindricalGrid3D {
 
     fn cell_id(&self, pos: Position) -> Result<CellId> {
         print_debug!("Grid3D: Checking if {:?} is in grid", pos);
-        let pos = &self.to_cylindrical(pos);
-        let posr = pos[0];
-        let mut cell_idr = None;
-        for (idx, radius) in self.rpositions.iter().enumerate() {
-            if posr >= radius[0] && posr <= radius[1] {
-                cell_idr = Some(idx)
-            }
+        // check if point is inside grid
+        if !self.is_inside(pos) {
+            return Err(anyhow!(
+                "Position {:?} is outside of grid limits {:?}",
+                pos,
+                self.limits
+            ));
         }
-        let cell_idr = cell_idr.unwrap_or_else(|| {
-            panic!(
-                "Unable to find radial cell id \n pos r:{}\nlen {:?}",
-                posr, self.rpositions
-            )
-        });
-        let poso = pos[1];
-        let cell_ido = (&self.opositions - poso)
-            .iter()
-            .map(|x| x.abs())
-            .collect::<Array1<f64>>()
-            .argmin()
-            .unwrap_or_else(|_| panic!("Can not find min of {:?} in Gri3D", pos));
-        let posz = pos[2];
-        let cell_idz = (&self.zpositions - posz)
-            .iter()
-            .map(|z| z.abs())
-            .collect::<Array1<f64>>()
-            .argmin()
-            .unwrap_or_else(|_| panic!("Can not find min of {:?} in Gri3D", pos));
-        Ok([cell_idr, cell_ido, cell_idz])
+        let pos = &self.to_cylindrical(pos);
+        Ok([
+            self.axis_cell(0, pos[0]),
+            self.axis_cell(1, pos[1]),
+            self.axis_cell(2, pos[2]),
+        ])
     }
     #[allow(unused_variables)]
     fn cell_ids_in_trajectory(
-- 
2.43.0


From 355aa76a8c60f791ac6336eddee3b6e5c8e9543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 03/62] fix: slice a grid at the cell that contains the
 position

Slicing at the upper limit panicked, positions below the lower limit silently
returned the first layer, and radial slices ignored that the rings of a
cylindrical grid are not equally wide.
---
 src/grid/cartesian_grid.rs   |  8 ++++++++
 src/grid/cylindrical_grid.rs | 10 +++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 8557be1..a79f8a6 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -415,9 +415,17 @@ impl GridFunctions3D for CartesianGrid3D {
 
     fn slice(&self, axis: usize, position: f64) -> Array2<f64> {
         // find the length of theplane in each direction with triangulation
+        if !(self.limits[axis][0]..=self.limits[axis][1]).contains(&position) {
+            panic!(
+                "Cartesian Grid: Slice position {:?} is outside of grid limits {:?}",
+                position, self.limits[axis]
+            );
+        }
         let cell_id = ((position - self.limits[axis][0])
             / (self.limits[axis][1] - self.limits[axis][0])
             * self.cells[axis] as f64) as usize;
+        // the upper limit belongs to the last cell
+        let cell_id = cell_id.min(self.cells[axis] - 1);
 
         if axis == 0 {
             self.data.slice(s![cell_id, .., ..]).to_owned()
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 84593c9..6682310 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -367,9 +367,13 @@ impl GridFunctions3D for CylindricalGrid3D {
 
     fn slice(&self, axis: usize, position: f64) -> Array2<f64> {
         // find the length of theplane in each direction with triangulation
-        let cell_id = ((position - self.limits[axis][0])
-            / (self.limits[axis][1] - self.limits[axis][0])
-            * self.cells[axis] as f64) as usize;
+        if !(self.limits[axis][0]..=self.limits[axis][1]).contains(&position) {
+            panic!(
+                "Cylindrical Grid: Slice position {:?} is outside of grid limits {:?}",
+                position, self.limits[axis]
+            );
+        }
+        let cell_id = self.axis_cell(axis, position);
 
         if axis == 0 {
             self.data.slice(s![cell_id, .., ..]).to_owned()
-- 
2.43.0


From 090c3d614781d98cf5a7f732e5a1c6a4e955b7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 04/62] fix: start every analysis from an empty grid

new_zeros kept the weights of the grid it was called on, vectorfield kept data
and weights, and dispersion and granular temperature used the data of the grid
as start values, so results depended on what the grid was used for before.
---
 src/functions.rs             | 30 +++++++++++++++---------------
 src/grid/cartesian_grid.rs   |  1 +
 src/grid/cylindrical_grid.rs |  1 +
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 32fb8ad..9bff892 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -29,7 +29,7 @@ pub trait Granular: DataManager {
     ) -> VectorGrid {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
-        let mut vectorgrid = VectorGrid::new(gridbox);
+        let mut vectorgrid = VectorGrid::new(gridbox.new_zeros());
         for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
@@ -464,13 +464,13 @@ pub trait Granular: DataManager {
         self.setup_buffer(0); // add another buffer to the system
                               // Allocate arrays needed for calculation
                               // those arrays are needed for the calculation of the variance with a special algorithm
-        let mut squared_sum_x = grid.get_data().clone();
-        let mut squared_sum_y = grid.get_data().clone();
-        let mut squared_sum_z = grid.get_data().clone();
-        let mut sum_x = grid.get_data().clone();
-        let mut sum_y = grid.get_data().clone();
-        let mut sum_z = grid.get_data().clone();
-        let mut num_counts = grid.get_data().clone();
+        let mut squared_sum_x = Array3::<f64>::zeros(*grid.get_cells());
+        let mut squared_sum_y = Array3::<f64>::zeros(*grid.get_cells());
+        let mut squared_sum_z = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_x = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_y = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_z = Array3::<f64>::zeros(*grid.get_cells());
+        let mut num_counts = Array3::<f64>::zeros(*grid.get_cells());
         let mut dispersion_grid = grid.new_zeros();
         print_debug!("Dispersion: Initiation over, entering time loop");
 
@@ -762,13 +762,13 @@ pub trait Granular: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         // calculating the mean fluicitaing velcity using a algroythm that allows
         // to only use one loop over the data
-        let mut squared_sum_x = grid.get_data().clone();
-        let mut squared_sum_y = grid.get_data().clone();
-        let mut squared_sum_z = grid.get_data().clone();
-        let mut sum_x = grid.get_data().clone();
-        let mut sum_y = grid.get_data().clone();
-        let mut sum_z = grid.get_data().clone();
-        let mut num_counts = grid.get_data().clone();
+        let mut squared_sum_x = Array3::<f64>::zeros(*grid.get_cells());
+        let mut squared_sum_y = Array3::<f64>::zeros(*grid.get_cells());
+        let mut squared_sum_z = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_x = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_y = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_z = Array3::<f64>::zeros(*grid.get_cells());
+        let mut num_counts = Array3::<f64>::zeros(*grid.get_cells());
         let mut grantemp = grid.new_zeros();
         print_debug!("velocityfield: Initiation over, entering time loop");
         for timestep in 0..=timesteps - 1 {
diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index a79f8a6..8f7d913 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -327,6 +327,7 @@ impl GridFunctions3D for CartesianGrid3D {
     fn new_zeros(&self) -> Box<dyn GridFunctions3D> {
         let mut grid = self.clone();
         grid.data = Array::zeros(self.cells);
+        grid.weight = Array::zeros(self.cells);
         Box::new(grid)
     }
 
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 6682310..a236495 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -279,6 +279,7 @@ impl GridFunctions3D for CylindricalGrid3D {
     fn new_zeros(&self) -> Box<dyn GridFunctions3D> {
         let mut grid = self.clone();
         grid.data = Array::zeros(self.cells);
+        grid.weight = Array::zeros(self.cells);
         Box::new(grid)
     }
 
-- 
2.43.0


From 789cdcc01406db3a21f8d4120d29b74aa6813a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 05/62] fix: replace outliers by the mean of the surrounding
 cells that are no outliers

Outliers in the first cell of an axis overflowed the index subtraction, the
cylindrical grid averaged over neighbouring outliers, so that values above the
threshold survived, and a single empty (NaN) neighbour made the cell NaN.
---
 src/grid/cartesian_grid.rs   | 12 +++++++++++-
 src/grid/cylindrical_grid.rs | 13 +++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 8f7d913..5e6a96a 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -510,6 +510,9 @@ impl GridFunctions3D for CartesianGrid3D {
                     // now check every surrounding index, only one cell away from idx
                     // 26 idx must be checked
                     // yes.. i know what you are thinking
+                    // shifted by one, the first cell of an axis has no lower neighbour
+                    let centre = idx;
+                    let idx = (idx.0 + 1, idx.1 + 1, idx.2 + 1);
                     let indexes = [
                         (idx.0 - 1, idx.1 - 1, idx.2 - 1),
                         (idx.0 - 1, idx.1 - 1, idx.2),
@@ -539,12 +542,19 @@ impl GridFunctions3D for CartesianGrid3D {
                         (idx.0 + 1, idx.1 + 1, idx.2 + 1),
                     ];
 
+                    let idx = centre;
                     for index in &indexes {
+                        let index = (
+                            index.0.wrapping_sub(1),
+                            index.1.wrapping_sub(1),
+                            index.2.wrapping_sub(1),
+                        );
                         if index.0 < self.data.shape()[0]
                             && index.1 < self.data.shape()[1]
                             && index.2 < self.data.shape()[2]
                         {
-                            if self.data[[index.0, index.1, index.2]] > threshold {
+                            let neighbour = self.data[[index.0, index.1, index.2]];
+                            if neighbour > threshold || neighbour.is_nan() {
                                 continue;
                             }
                             sum += self.data[[index.0, index.1, index.2]];
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index a236495..b3a5e59 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -461,6 +461,9 @@ impl GridFunctions3D for CylindricalGrid3D {
                     let mut counter_sum: f64 = 0.;
                     // now check every surrounding index, only one cell away from idx
                     // 26 idx must be checked
+                    // shifted by one, the first cell of an axis has no lower neighbour
+                    let centre = idx;
+                    let idx = (idx.0 + 1, idx.1 + 1, idx.2 + 1);
                     let indexes = [
                         (idx.0 - 1, idx.1 - 1, idx.2 - 1),
                         (idx.0 - 1, idx.1 - 1, idx.2),
@@ -490,11 +493,21 @@ impl GridFunctions3D for CylindricalGrid3D {
                         (idx.0 + 1, idx.1 + 1, idx.2 + 1),
                     ];
 
+                    let idx = centre;
                     for index in &indexes {
+                        let index = (
+                            index.0.wrapping_sub(1),
+                            index.1.wrapping_sub(1),
+                            index.2.wrapping_sub(1),
+                        );
                         if index.0 < self.data.shape()[0]
                             && index.1 < self.data.shape()[1]
                             && index.2 < self.data.shape()[2]
                         {
+                            let neighbour = self.data[[index.0, index.1, index.2]];
+                            if neighbour > threshold || neighbour.is_nan() {
+                                continue;
+                            }
                             sum += self.data[[index.0, index.1, index.2]];
                             weight_sum += self.weight[[index.0, index.1, index.2]];
                             counter_sum += 1.0;
-- 
2.43.0


From 40a01cef5672ff9358b4b4ee9b460b1bdcebca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 06/62] fix: project velocities relative to the axis of the
 cylindrical grid

The radial and angular velocity were calculated with the absolute position, so
they were wrong for every cylinder that is not centred at the origin.
---
 src/grid/vector_grid.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grid/vector_grid.rs b/src/grid/vector_grid.rs
index 0f3397c..d26d1a4 100644
--- a/src/grid/vector_grid.rs
+++ b/src/grid/vector_grid.rs
@@ -36,6 +36,9 @@ impl VectorGrid {
         } else {
             // downcast a data grid to a cylindrical grid
             let cyl_pos = self.cyl_grid.to_cylindrical(pos);
+            // position relative to the axis of the cylinder
+            let center = self.cyl_grid.center();
+            let pos = [pos[0] - center[0], pos[1] - center[1], pos[2]];
             let vel_radial = (pos[0] * vel[0] + pos[1] * vel[1]) / cyl_pos[0];
             let vel_omega =
                 (pos[0] * vel[1] - pos[1] * vel[0]) / (pos[0] * pos[0] + pos[1] * pos[1]);
-- 
2.43.0


From 8a293fed9a700457c18261a66909aa4b54fc7853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 07/62] fix: skip particles without velocity in vectorfield and
 granular temperature

A single NaN velocity made the whole cell NaN. velocityfield skips them already.
---
 src/functions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index 9bff892..04f1102 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -76,6 +76,10 @@ pub trait Granular: DataManager {
                     continue;
                 }
                 let velocity = vectorgrid.velocity_calculation(position, velocity);
+                if velocity.iter().any(|component| component.is_nan()) {
+                    print_debug!("Particle {} has no velocity", particle);
+                    continue;
+                }
 
                 vectorgrid.data[0].add_value(position, velocity[0]);
                 vectorgrid.data[1].add_value(position, velocity[1]);
@@ -821,6 +825,10 @@ pub trait Granular: DataManager {
                     grid.get_zpositions()
                 );
                 let velocity = velocities.slice(s![particle, ..]);
+                if velocity.iter().any(|component| component.is_nan()) {
+                    print_debug!("Particle {} has no velocity", particle);
+                    continue;
+                }
                 let cell_id = match grid.cell_id(position) {
                     Ok(cell_id) => cell_id,
                     Err(_) => continue,
-- 
2.43.0


From a48a8ef2a924ff5468d0c46a62fc60d285ecfc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 08/62] fix: select clouds and density by their own limits

Whether clouds and density are a range was decided by the radius selection, and
the upper limit of the density was compared with the one of the radius.
---
 src/particleselector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particleselector.rs b/src/particleselector.rs
index d5ee735..63a3543 100644
--- a/src/particleselector.rs
+++ b/src/particleselector.rs
@@ -67,7 +67,7 @@ impl ParticleSelector {
         }
         if self.clouds.len() == 1 {
             cloud == self.clouds[0]
-        } else if self.radius.len() == 2 {
+        } else if self.clouds.len() == 2 {
             cloud >= self.clouds[0] && cloud <= self.clouds[1]
         } else {
             self.clouds.contains(&cloud)
@@ -80,8 +80,8 @@ impl ParticleSelector {
         }
         if self.density.len() == 1 {
             density == self.density[0]
-        } else if self.radius.len() == 2 {
-            density >= self.density[0] && density <= self.radius[1]
+        } else if self.density.len() == 2 {
+            density >= self.density[0] && density <= self.density[1]
         } else {
             self.density.contains(&density)
         }
-- 
2.43.0


From 7075bda79c63839827f243ec4a6560729910e4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 09/62] fix: include the last timesteps in the occupancy

The last two steps were left out and datasets with less than three timesteps
caused an overflow.
---
 src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index 04f1102..f31cfa3 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -318,7 +318,7 @@ pub trait Granular: DataManager {
         let mut occupancy_grid = grid.new_zeros();
         let mut complete_time = 0.0;
         self.setup_buffer(0); //setup another buffer
-        for timestep in 0..timesteps - 3 {
+        for timestep in 0..timesteps - 1 {
             let timestep_data = self.get_timestep(timestep).clone();
             //BUG this is not working, try to acces a point in the buffer that doesnt excist
             let next_timestep_data = self.get_timestep_buffer(timestep + 1, 0);
-- 
2.43.0


From 91305aaad49c2ddc60723f8730746869b0bfdf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 10/62] fix: follow particles by their id between timesteps

occupancyfield, dispersion and msd_field took the position at the same row of
the later timestep, which is another particle as soon as particles enter, leave
or are reordered, and panicked if the later timestep has fewer particles.
---
 src/functions.rs        | 37 ++++++++++++++++++++++++++++++-------
 src/functions/mixing.rs |  7 ++++++-
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index f31cfa3..f392d06 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -13,6 +13,16 @@ use crate::{
     ParticleSelector, Selector,
 };
 use ndarray::prelude::*;
+
+/// Row of the particle with this id in a timestep. Rows may differ between timesteps, `row` is the
+/// first one to be checked.
+fn find_particle(particle_ids: &Array1<f64>, id: f64, row: usize) -> Option<usize> {
+    if particle_ids.get(row) == Some(&id) {
+        return Some(row);
+    }
+    particle_ids.iter().position(|other| *other == id)
+}
+
 pub trait Granular: DataManager {
     /// Calculate a 2D velocity vectorfield across `grid`, optionally normalising values to 1.
     /// The 3D data is projected in 2D according to `axis`.
@@ -332,6 +342,7 @@ pub trait Granular: DataManager {
             print_debug!("Timestep {} is valid", timestep);
             let positions = timestep_data.position();
             let next_positions = next_timestep_data.position();
+            let next_particle_ids = next_timestep_data.particleid();
             let velocities = timestep_data.velocity();
             let particle_ids = timestep_data.particleid();
             let rad_array = timestep_data.radius();
@@ -386,12 +397,19 @@ pub trait Granular: DataManager {
                     print_warning!("Occupyfield: timestep is negative");
                     continue;
                 }
-                //TODO BUG this is not valit code. we must check which particle is at which position
-                if next_positions.len() <= particle {
-                    print_warning!("Occupyfield: next timestep has less particles");
-                    continue;
-                }
-                occupancy_grid.add_trajectory_value(position, next_positions[particle], time_spent);
+                let next_particle =
+                    match find_particle(next_particle_ids, particle_ids[particle], particle) {
+                        Some(next_particle) => next_particle,
+                        None => {
+                            print_warning!("Occupyfield: particle is not in the next timestep");
+                            continue;
+                        }
+                    };
+                occupancy_grid.add_trajectory_value(
+                    position,
+                    next_positions[next_particle],
+                    time_spent,
+                );
                 complete_time += time_spent;
             }
             // checking for kill signals after each timestep
@@ -521,6 +539,7 @@ pub trait Granular: DataManager {
             //println!("Next time is {}", *timestep_future.time());
             print_debug!("extracting position");
             let position_future = timestep_future.position();
+            let particle_ids_future = timestep_future.particleid();
             print_debug!("Starting particle loop");
 
             for particle in 0..particles {
@@ -549,7 +568,11 @@ pub trait Granular: DataManager {
                         continue;
                     }
                 };
-                let position_future_particle = position_future[particle];
+                let position_future_particle =
+                    match find_particle(particle_ids_future, particle_ids[particle], particle) {
+                        Some(future_particle) => position_future[future_particle],
+                        None => continue, // the particle left the system
+                    };
                 squared_sum_x[cell_id] += position_future_particle[0] * position_future_particle[0];
                 squared_sum_y[cell_id] += position_future_particle[1] * position_future_particle[1];
                 squared_sum_z[cell_id] += position_future_particle[2] * position_future_particle[2];
diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index ec4eebd..151d878 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -247,6 +247,7 @@ pub trait Mixing: DataManager {
             let timestep_future = self.get_timestep_buffer(next_timestep, 0);
             print_debug!("extracting position");
             let position_future = timestep_future.position();
+            let particle_ids_future = timestep_future.particleid();
             print_debug!("Starting particle loop");
 
             for particle in 0..particles {
@@ -264,7 +265,11 @@ pub trait Mixing: DataManager {
                     print_debug!("Particle {} is out of FoV", particle);
                     continue;
                 }
-                let position_future_particle = position_future[particle];
+                let position_future_particle =
+                    match find_particle(particle_ids_future, particle_ids[particle], particle) {
+                        Some(future_particle) => position_future[future_particle],
+                        None => continue, // the particle left the system
+                    };
                 let dist = ((positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
                     + (positions[particle][2] - position_future_particle[2]).powi(2))
-- 
2.43.0


From 526536891ed2b388f66a667c911b0591d8a4af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 11/62] fix: average the squared displacement in msd_field

The sum of the distances was squared and divided by their number, which is not
the mean of the squared displacements and grows with the number of particles.
---
 src/functions/mixing.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 151d878..0953c48 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -270,11 +270,10 @@ pub trait Mixing: DataManager {
                         Some(future_particle) => position_future[future_particle],
                         None => continue, // the particle left the system
                     };
-                let dist = ((positions[particle][0] - position_future_particle[0]).powi(2)
+                let dist = (positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
-                    + (positions[particle][2] - position_future_particle[2]).powi(2))
-                .sqrt();
-                distance.add_value(positions[particle], dist); // add the distance traveled to the cell id of the current particle
+                    + (positions[particle][2] - position_future_particle[2]).powi(2);
+                distance.add_value(positions[particle], dist); // add the squared distance traveled to the cell id of the current particle
             }
             check_signals!();
 
@@ -288,7 +287,7 @@ pub trait Mixing: DataManager {
         let data = data
             .iter()
             .zip(weights.iter())
-            .map(|(x, y)| if *y > 0.0 { (x * x) / y } else { 0.0 })
+            .map(|(x, y)| if *y > 0.0 { x / y } else { 0.0 })
             .collect::<Vec<f64>>();
         let data = ndarray::Array::from_shape_vec((cells[0], cells[1], cells[2]), data).unwrap();
         grid.set_data(data);
-- 
2.43.0


From c694bb265b98923913bfbd7bbb13d4712d3ffda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 12/62] fix: skip particles without a position at the later
 timestep

A single NaN position made the dispersion and the squared displacement of the
whole cell NaN.
---
 src/functions.rs        | 3 +++
 src/functions/mixing.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index f392d06..e7e0e9b 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -573,6 +573,9 @@ pub trait Granular: DataManager {
                         Some(future_particle) => position_future[future_particle],
                         None => continue, // the particle left the system
                     };
+                if position_future_particle.iter().any(|x| x.is_nan()) {
+                    continue;
+                }
                 squared_sum_x[cell_id] += position_future_particle[0] * position_future_particle[0];
                 squared_sum_y[cell_id] += position_future_particle[1] * position_future_particle[1];
                 squared_sum_z[cell_id] += position_future_particle[2] * position_future_particle[2];
diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 0953c48..5eac1ce 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -270,6 +270,9 @@ pub trait Mixing: DataManager {
                         Some(future_particle) => position_future[future_particle],
                         None => continue, // the particle left the system
                     };
+                if position_future_particle.iter().any(|x| x.is_nan()) {
+                    continue;
+                }
                 let dist = (positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
                     + (positions[particle][2] - position_future_particle[2]).powi(2);
-- 
2.43.0


From 7d389669885b1d4fa08b8384f7128ace922c9e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 13/62] fix: find the timestep closest to a time

The search stopped at the first timestep within 0.01 s, whatever the sample rate,
and otherwise at the last timestep it looked at, which need not be the closest.
---
 src/datamanager.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/datamanager.rs b/src/datamanager.rs
index d4f93a5..4dc8f81 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -82,7 +82,10 @@ impl GlobalStats {
         // finding index in ordered list of self.time_array
         // using the binary search algorithm
         let mut low = 0;
-        let mut high = self.time_array.len() - 1;
+        let mut high = match self.time_array.len().checked_sub(1) {
+            Some(last) => last,
+            None => return Err("There are no timesteps"),
+        };
 
         if self.time_array[high] < seconds {
             return Err("Timestep is greater than the number of timesteps");
@@ -90,18 +93,19 @@ impl GlobalStats {
         if self.time_array[low] > seconds {
             return Err("Timestep is smaller than the number of timesteps");
         }
-        let mut mid = (low + high) / 2;
-        while low <= high {
-            mid = (low + high) / 2;
-            if (self.time_array[mid] - seconds).abs() < 0.01 {
-                return Ok(mid);
-            } else if self.time_array[mid] < seconds {
-                low = mid + 1;
+        // time_array[low] <= seconds <= time_array[high], until they are neighbours
+        while high - low > 1 {
+            let mid = (low + high) / 2;
+            if self.time_array[mid] <= seconds {
+                low = mid;
             } else {
-                high = mid - 1;
+                high = mid;
             }
         }
-
-        Ok(mid)
+        if self.time_array[high] - seconds < seconds - self.time_array[low] {
+            Ok(high)
+        } else {
+            Ok(low)
+        }
     }
 }
-- 
2.43.0


From 4cc11b5ae85d34f029ca3bd8ca39475dd20962e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 14/62] fix: no NaN granular temperature from rounding

The variance of equal velocities can be a tiny negative number.
---
 src/functions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index e7e0e9b..2ee9c70 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -888,7 +888,8 @@ pub trait Granular: DataManager {
             panic!("Mode {} is not supported", mode);
         }
         temp /= &num_counts;
-        temp.mapv_inplace(|x| x.sqrt());
+        // rounding can leave a tiny negative variance
+        temp.mapv_inplace(|x| if x < 0.0 { 0.0 } else { x.sqrt() });
         grantemp.set_data(temp);
         grantemp.set_weights(num_counts);
         grantemp
-- 
2.43.0


From 5ce2aa351d5e9aa41b7915e76c99363e8bd6d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 15/62] fix: count the fastest particles in the histogram

Values at the upper edge were dropped, which by default are those of the fastest
particle, while values below the range and NaN were counted in the first bin.
---
 src/functions.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 2ee9c70..ae1583d 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -751,13 +751,14 @@ pub trait Granular: DataManager {
                     + velocity[1] * velocity[1]
                     + velocity[2] * velocity[2])
                     .sqrt();
-                let bin = ((velocity_mag - bin_edges[0]) / (bin_edges[1] - bin_edges[0])).floor()
-                    as usize;
-                // BUG: bin is sometimes out of bounds
-                if bin > bins - 1 {
+                // also false for particles without velocity
+                if !(bin_edges[0]..=bin_edges[bins]).contains(&velocity_mag) {
                     continue;
                 }
-                histogram[bin] += 1.0;
+                let bin = ((velocity_mag - bin_edges[0]) / (bin_edges[1] - bin_edges[0])).floor()
+                    as usize;
+                // the last bin includes its upper edge
+                histogram[bin.min(bins - 1)] += 1.0;
             }
             // checking for kill signals after each timestep
             check_signals!();
-- 
2.43.0


From 571fe05a00145eec431a76966fef2b0764d9d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 16/62] fix: include the last timestep in lacey_mixing,
 concentration_field and msd_field

It was left out, datasets with a single timestep gave no result at all.
---
 src/functions/mixing.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 5eac1ce..37b0282 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -17,10 +17,10 @@ pub trait Mixing: DataManager {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
         print_debug!("velocityfield: Initiation over, entering time loop");
-        let mut mixing = ndarray::Array1::<f64>::zeros(*timesteps - 1);
-        let mut time = ndarray::Array1::<f64>::zeros(*timesteps - 1);
+        let mut mixing = ndarray::Array1::<f64>::zeros(*timesteps);
+        let mut time = ndarray::Array1::<f64>::zeros(*timesteps);
 
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
@@ -129,7 +129,7 @@ pub trait Mixing: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         let mut type_a_grid = grid.new_zeros();
         let mut type_b_grid = grid.new_zeros();
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
@@ -212,7 +212,7 @@ pub trait Mixing: DataManager {
         print_debug!("Dispersion: Initiation over, entering time loop");
 
         let mut next_timestep;
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep).clone();
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
-- 
2.43.0


From 8e8cf558dcc5cd51ec45657eaf8a5d55c9e47e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 17/62] fix: no panic in lacey_mixing for a type that is not in
 the dataset

The types were counted in a list that only grew to the largest type present.
---
 src/functions/mixing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 37b0282..89b6ce8 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -44,7 +44,7 @@ pub trait Mixing: DataManager {
             );
             let mut type_a_grid = grid.new_zeros();
             let mut type_b_grid = grid.new_zeros();
-            let mut type_counter: Vec<usize> = Vec::with_capacity(3);
+            let mut type_counter: Vec<usize> = vec![0; type_a.max(type_b) + 1];
             for particle in 0..particles {
                 if !selector.is_valid(
                     rad_array[particle],
-- 
2.43.0


From cb5dafc18b0e0574d81b9745f7f5a933f2968e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 18/62] fix: follow circulations up to the last timestep and
 only within the timeframe

---
 src/functions/conditional.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index b36bd74..b2b48d4 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::datamanager::Timestep;
 pub trait Conditional: DataManager {
     fn circulation_time(
         &mut self,
@@ -20,8 +21,8 @@ pub trait Conditional: DataManager {
         let mut start_flag_array = Array1::<usize>::zeros(particle_number + 1);
         let mut time_flag_array = Array1::<f64>::zeros(particle_number + 1);
 
-        let mut old_timestep = self.get_timestep(0).to_owned();
-        for timestep in 1..timesteps - 1 {
+        let mut old_timestep: Option<Timestep> = None;
+        for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
@@ -30,6 +31,11 @@ pub trait Conditional: DataManager {
                 continue;
             }
             print_debug!("Timestep {} is valid", timestep);
+            // compare with the last timestep in the timeframe
+            let old_timestep = match old_timestep.replace(timestep_data.to_owned()) {
+                Some(old_timestep) => old_timestep,
+                None => continue,
+            };
             let positions = timestep_data.position();
             let old_positions = old_timestep.position();
             let particle_ids = timestep_data.particleid();
@@ -77,7 +83,6 @@ pub trait Conditional: DataManager {
                 }
             }
 
-            old_timestep = timestep_data.to_owned();
             check_signals!()
         }
         circulation_time
@@ -108,9 +113,9 @@ pub trait Conditional: DataManager {
         let mut time_flag_array = Array1::<f64>::zeros(particle_number + 1);
         let mut mid_time_flag_array = Array1::<f64>::zeros(particle_number + 1);
      
-        let mut old_timestep = self.get_timestep(0).to_owned();
+        let mut old_timestep: Option<Timestep> = None;
         let mut count = 0;
-        for timestep in 1..timesteps - 1 {
+        for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
@@ -119,6 +124,11 @@ pub trait Conditional: DataManager {
                 continue;
             }
             print_debug!("Timestep {} is valid", timestep);
+            // compare with the last timestep in the timeframe
+            let old_timestep = match old_timestep.replace(timestep_data.to_owned()) {
+                Some(old_timestep) => old_timestep,
+                None => continue,
+            };
             let positions = timestep_data.position();
             let old_positions = old_timestep.position();
             let particle_ids = timestep_data.particleid();
@@ -232,7 +242,6 @@ pub trait Conditional: DataManager {
                 //println!("check done");
             } // end particle for loop
 
-            old_timestep = timestep_data.to_owned();
             check_signals!()
         }
         circulation_time
-- 
2.43.0


From 9f127e4ca7750bbb4c10030a7a3bf3e7a25cb7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 19/62] fix: follow circulating particles by their id between
 timesteps

---
 src/functions/conditional.rs | 59 ++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index b2b48d4..0aba31a 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -1,5 +1,7 @@
 use super::*;
 use crate::datamanager::Timestep;
+use std::collections::HashMap;
+
 pub trait Conditional: DataManager {
     fn circulation_time(
         &mut self,
@@ -14,12 +16,13 @@ pub trait Conditional: DataManager {
         if boundary_position > dim[[1, axis]] || boundary_position < dim[[0, axis]] {
             panic!("Boundary position is outside of the system");
         }
-        let particle_number = global_stats.nparticles();
         let timesteps: &usize = global_stats.timesteps();
         print_debug!("velocityfield: Initiation over, entering time loop");
         let mut circulation_time = Vec::<f64>::new();
-        let mut start_flag_array = Array1::<usize>::zeros(particle_number + 1);
-        let mut time_flag_array = Array1::<f64>::zeros(particle_number + 1);
+        // state of each particle, in the order of their first appearance
+        let mut slots = HashMap::<u64, usize>::new();
+        let mut start_flag_array = Vec::<usize>::new();
+        let mut time_flag_array = Vec::<f64>::new();
 
         let mut old_timestep: Option<Timestep> = None;
         for timestep in 0..=timesteps - 1 {
@@ -62,12 +65,20 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle_ids[particle] != old_particle_ids[particle] {
-                    print_debug!("Particle {} is not valid", particle);
-                    continue;
-                }
+                // rows may differ between timesteps
+                let id = particle_ids[particle];
+                let old_particle = match find_particle(old_particle_ids, id, particle) {
+                    Some(old_particle) => old_particle,
+                    None => continue, // the particle was not in the system before
+                };
                 let pos = positions[particle];
-                let old_pos = old_positions[particle];
+                let old_pos = old_positions[old_particle];
+                let slots_used = slots.len();
+                let particle = *slots.entry(id.to_bits()).or_insert(slots_used);
+                if particle == slots_used {
+                    start_flag_array.push(0);
+                    time_flag_array.push(0.0);
+                }
                 // check if particle crossed boundary
                 if (pos[axis] - boundary_position) * (old_pos[axis] - boundary_position) < 0.0 {
                     // check if particle is already in the list
@@ -104,15 +115,15 @@ pub trait Conditional: DataManager {
         if boundary_position.1 > dim[[1, axis]] || boundary_position.1 < dim[[0, axis]] {
             panic!("Boundary position is outside of the system");
         }
-        let particle_number = global_stats.nparticles();
         let timesteps: &usize = global_stats.timesteps();
         print_debug!("velocityfield: Initiation over, entering time loop");
         let mut circulation_time = Vec::<(f64,f64)>::new();
-        let mut start_flag_array = Array1::<usize>::zeros(particle_number + 1);
-        let mut mid_flag_array = Array1::<usize>::zeros(particle_number + 1);
-        let mut time_flag_array = Array1::<f64>::zeros(particle_number + 1);
-        let mut mid_time_flag_array = Array1::<f64>::zeros(particle_number + 1);
-     
+        // state of each particle, in the order of their first appearance
+        let mut slots = HashMap::<u64, usize>::new();
+        let mut start_flag_array = Vec::<usize>::new();
+        let mut mid_flag_array = Vec::<usize>::new();
+        let mut time_flag_array = Vec::<f64>::new();
+        let mut mid_time_flag_array = Vec::<f64>::new();
         let mut old_timestep: Option<Timestep> = None;
         let mut count = 0;
         for timestep in 0..=timesteps - 1 {
@@ -155,12 +166,22 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle_ids[particle] != old_particle_ids[particle] {
-                    print_debug!("Particle {} is not valid", particle);
-                    continue;
-                }
+                // rows may differ between timesteps
+                let id = particle_ids[particle];
+                let old_particle = match find_particle(old_particle_ids, id, particle) {
+                    Some(old_particle) => old_particle,
+                    None => continue, // the particle was not in the system before
+                };
                 let pos = positions[particle][axis];
-                let old_pos = old_positions[particle][axis];
+                let old_pos = old_positions[old_particle][axis];
+                let slots_used = slots.len();
+                let particle = *slots.entry(id.to_bits()).or_insert(slots_used);
+                if particle == slots_used {
+                    start_flag_array.push(0);
+                    mid_flag_array.push(0);
+                    time_flag_array.push(0.0);
+                    mid_time_flag_array.push(0.0);
+                }
                 if pos > boundary_position.1 && old_pos < boundary_position.1 {
                     count += 1;
                     //println!("particle inside upper ");
-- 
2.43.0


From 27402b201eef869f907c296a45059a29f30a352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 20/62] fix: leave one region before entering the other in
 circulation_time_two_boundary

---
 src/functions/conditional.rs | 72 ++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index 0aba31a..0be5aa9 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -182,24 +182,10 @@ pub trait Conditional: DataManager {
                     time_flag_array.push(0.0);
                     mid_time_flag_array.push(0.0);
                 }
-                if pos > boundary_position.1 && old_pos < boundary_position.1 {
-                    count += 1;
-                    //println!("particle inside upper ");
-    
-                    // if particle before was below
-                    if start_flag_array[particle] == 2 {
-                        // say " particle was in the other region"
-                        if mid_flag_array[particle] == 0 {
-                            //down_times.push(current_time - time_flag_array[particle]);
-                        }
-                        mid_flag_array[particle] = 1;
-                    } else if start_flag_array[particle] == 1 && mid_flag_array[particle] == 1 {
-                        //up_times.push(current_time - mid_time_flag_array[particle]);
-                        // One more flag to make shure up time only counted once
-                    }
-                }
+                // a fast particle can leave one region and enter the other one in a single
+                // timestep, it has to leave first
                 // particle crosses out of upper border
-                else if pos < boundary_position.1 && old_pos > boundary_position.1 {
+                if pos < boundary_position.1 && old_pos > boundary_position.1 {
                     //count -=1;
                     //println!("particle out of upper");
                     //println!("{}->{},{},{},{}",old_pos,pos,boundary[1],boundary[0],pos  < boundary[0] && old_pos  > boundary[0]);
@@ -220,25 +206,6 @@ pub trait Conditional: DataManager {
                     } else if start_flag_array[particle] == 2 {
                         mid_time_flag_array[particle] = current_time;
                     }
-                    continue;
-                }
-    
-                //println!("Middle_check done");
-                ///// same vor lower border
-                // particle crosses into low border
-                if pos < boundary_position.0 && old_pos > boundary_position.0 {
-                    //println!("particle in lower");
-                    //println!("{}->{},{},{},{}",old_pos,pos,boundary[1],boundary[0],pos  < boundary[0] && old_pos  > boundary[0]);
-                    // if particle before was below
-                    if start_flag_array[particle] == 1 {
-                        // say " particle was in the other region"
-                        if mid_flag_array[particle] == 0 {
-                            //down_times.push(current_time - time_flag_array[particle]);
-                        }
-                        mid_flag_array[particle] = 1;
-                    } else if start_flag_array[particle] == 2 && mid_flag_array[particle] == 1 {
-                        //down_times.push(current_time - mid_time_flag_array[particle]);
-                    }
                 }
                 // particle crosses out of lower border
                 else if pos > boundary_position.0 && old_pos < boundary_position.0 {
@@ -260,6 +227,39 @@ pub trait Conditional: DataManager {
                         mid_time_flag_array[particle] = current_time;
                     }
                 }
+
+                // particle crosses into upper border
+                if pos > boundary_position.1 && old_pos < boundary_position.1 {
+                    count += 1;
+                    //println!("particle inside upper ");
+    
+                    // if particle before was below
+                    if start_flag_array[particle] == 2 {
+                        // say " particle was in the other region"
+                        if mid_flag_array[particle] == 0 {
+                            //down_times.push(current_time - time_flag_array[particle]);
+                        }
+                        mid_flag_array[particle] = 1;
+                    } else if start_flag_array[particle] == 1 && mid_flag_array[particle] == 1 {
+                        //up_times.push(current_time - mid_time_flag_array[particle]);
+                        // One more flag to make shure up time only counted once
+                    }
+                }
+                // particle crosses into low border
+                else if pos < boundary_position.0 && old_pos > boundary_position.0 {
+                    //println!("particle in lower");
+                    //println!("{}->{},{},{},{}",old_pos,pos,boundary[1],boundary[0],pos  < boundary[0] && old_pos  > boundary[0]);
+                    // if particle before was below
+                    if start_flag_array[particle] == 1 {
+                        // say " particle was in the other region"
+                        if mid_flag_array[particle] == 0 {
+                            //down_times.push(current_time - time_flag_array[particle]);
+                        }
+                        mid_flag_array[particle] = 1;
+                    } else if start_flag_array[particle] == 2 && mid_flag_array[particle] == 1 {
+                        //down_times.push(current_time - mid_time_flag_array[particle]);
+                    }
+                }
                 //println!("check done");
             } // end particle for loop
 
-- 
2.43.0


From ca9c6e7854aec45fc022dcc8a3e0fc7314ec8521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 21/62] fix: use cylindrical velocities for the r and theta
 modes of velocityfield

---
 src/functions.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index ae1583d..17f2c18 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -169,6 +169,12 @@ pub trait Granular: DataManager {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
         let mut velocity_grid = grid.new_zeros();
+        // modes of the cylindrical coordinates need the velocity in these coordinates
+        let cylindrical = if (mode == "r" || mode == "theta") && grid.is_cylindrical() {
+            Some(VectorGrid::new(grid.new_zeros()))
+        } else {
+            None
+        };
         print_debug!("velocityfield: Initiation over, entering time loop");
         for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
@@ -212,6 +218,12 @@ pub trait Granular: DataManager {
                 //reset the position. the lowest value should be at 0,0,0
 
                 //velocities
+                let velocity = match &cylindrical {
+                    Some(vectorgrid) => {
+                        Array1::from(vectorgrid.velocity_calculation(position, velocity).to_vec())
+                    }
+                    None => velocity,
+                };
                 let abs_vel = velocity_calc(velocity);
 
                 if abs_vel.is_nan() {
-- 
2.43.0


From 22fa02fa10566e80f5ac09dc0ee1736a67a27a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 22/62] fix: allow to extract the last timestep

---
 src/functions/extractions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/extractions.rs b/src/functions/extractions.rs
index b0a097e..46a794c 100644
--- a/src/functions/extractions.rs
+++ b/src/functions/extractions.rs
@@ -12,7 +12,7 @@ pub trait Extraction: DataManager {
     fn extract(&mut self, particle_id: usize, timestep: (usize, usize)) -> ndarray::Array2<f64> {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
-        if &timestep.0 >= timesteps || &timestep.1 >= timesteps {
+        if &timestep.0 >= timesteps || &timestep.1 > timesteps {
             panic!("Timestep out of bounds");
         }
         let mut return_data: ndarray::Array2<f64> =
-- 
2.43.0


From 9de1a6519458315ef68ecf57337e93d8a6a9690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 23/62] fix: mean velocity of the valid particles only

---
 src/functions.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 17f2c18..9a4fdcc 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -452,7 +452,19 @@ pub trait Granular: DataManager {
                 continue;
             }
             let velocities = timestep_data.velocity();
-            for vel in velocities.outer_iter() {
+            let particle_ids = timestep_data.particleid();
+            let rad_array = timestep_data.radius();
+            let clouds = timestep_data.clouds();
+            let density = timestep_data.density();
+            for (particle, vel) in velocities.outer_iter().enumerate() {
+                if !selector.is_valid(
+                    rad_array[particle],
+                    clouds[particle],
+                    density[particle],
+                    particle_ids[particle] as usize,
+                ) {
+                    continue;
+                }
                 let velocity = (vel[0] * vel[0] + vel[1] * vel[1] + vel[2] * vel[2]).sqrt();
                 if f64::is_nan(velocity) {
                     continue;
@@ -650,9 +662,8 @@ pub trait Granular: DataManager {
     ///’’’
     ///mean_velocity = data.mean_velocity(particleselector)
     ///'''
-    fn mean_velocity(&mut self, _selector: &ParticleSelector) -> f64 {
-        let global_stats = self.global_stats();
-        global_stats.velocity_mag()[1]
+    fn mean_velocity(&mut self, selector: &ParticleSelector) -> f64 {
+        self.mean_velocity_showcase(selector)
     } //end mean velocity
 
     /// Calculate a histogram of a specific property in a region of the system.
-- 
2.43.0


From 9be8a534cc8c2147a1acd062a2d6fda780070ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 24/62] verif: constructors for the verification harness behind
 cfg(up4_verif)

---
 src/datamanager.rs | 54 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/datamanager.rs b/src/datamanager.rs
index 4dc8f81..13bc7d8 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -109,3 +109,57 @@ impl GlobalStats {
         }
     }
 }
+
+/// Constructors for the verification harness, compiled only with `--cfg up4_verif`.
+#[cfg(up4_verif)]
+#[allow(clippy::too_many_arguments)]
+impl Timestep {
+    pub fn verif_new(
+        time: f64,
+        position: Array1<Position>,
+        velocity: Array2<f64>,
+        radius: Array1<f64>,
+        particleid: Array1<f64>,
+        clouds: Array1<f64>,
+        density: Array1<f64>,
+        ptype: Array1<f64>,
+    ) -> Self {
+        Timestep {
+            time,
+            position,
+            velocity,
+            radius,
+            particleid,
+            clouds,
+            density,
+            ptype,
+        }
+    }
+}
+
+/// Constructors for the verification harness, compiled only with `--cfg up4_verif`.
+#[cfg(up4_verif)]
+#[allow(clippy::too_many_arguments)]
+impl GlobalStats {
+    pub fn verif_new(
+        dimensions: Array2<f64>,
+        nparticles: usize,
+        ntimesteps: usize,
+        sample_rate: f64,
+        velocity: Array2<f64>,
+        velocity_mag: Array1<f64>,
+        time_array: Array1<f64>,
+    ) -> Self {
+        GlobalStats {
+            dimensions,
+            nparticles,
+            ntimesteps,
+            min_time: time_array.first().copied().unwrap_or(0.0),
+            max_time: time_array.last().copied().unwrap_or(0.0),
+            sample_rate,
+            velocity,
+            velocity_mag,
+            time_array,
+        }
+    }
+}
-- 
2.43.0


From 08cde198b53e4449090c4cf7bd2c5e370c34a52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 25/62] fix: count layers without particles as unoccupied in
 the homogeneity index

They were counted as zero in the mean of the layers, but left out of the spread.
---
 src/functions.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 9a4fdcc..78d1815 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -933,9 +933,8 @@ pub trait Granular: DataManager {
         ) / field.len() as f64;
         let mut ih: f64 = 0.0;
         for value in field.iter() {
-            if value.is_nan() {
-                continue;
-            }
+            // a layer without particles is not occupied
+            let value = if value.is_nan() { 0.0 } else { *value };
             ih += (value - mean) * (value - mean);
         }
         ih /= field.len() as f64;
-- 
2.43.0


From 4e2576fe720fc45bb01f98dbc9ed8a6c2cc9ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 26/62] verif: small buffers of the data managers behind
 cfg(up4_verif)

---
 src/datamanager/pdata.rs | 4 ++++
 src/datamanager/tdata.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 452fafa..685c73d 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -13,7 +13,11 @@ use crate::{print_debug, print_warning};
 use hdf5::filters::blosc_set_nthreads;
 use ndarray::prelude::*;
 use std::time::Instant;
+#[cfg(not(up4_verif))]
 const BUFFERSIZE: usize = 20000;
+// small enough for the verification harness to leave the buffers behind
+#[cfg(up4_verif)]
+const BUFFERSIZE: usize = 4;
 
 //#[pyclass]
 pub struct PData {
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 30c63ed..b3cad37 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -14,7 +14,11 @@ use crate::{print_debug, print_warning};
 use hdf5::filters::blosc_set_nthreads;
 use ndarray::prelude::*;
 use std::time::Instant;
+#[cfg(not(up4_verif))]
 const BUFFERSIZE: usize = 20000;
+// small enough for the verification harness to leave the buffers behind
+#[cfg(up4_verif)]
+const BUFFERSIZE: usize = 4;
 #[pyclass]
 pub struct TData {
     // A data managing system for HDF5 files in the
-- 
2.43.0


From d66f7034e75b3919c234d88b27098f6379888965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 27/62] fix: particles without a stored density have density
 one, as announced

---
 src/datamanager/pdata.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 685c73d..6037b15 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -282,7 +282,7 @@ impl PData {
                         particle_id,
                         self.file.filename()
                     );
-                    part_rad
+                    1.0
                 }
             };
             print_debug!("\tParticle {}: Extracting time from HDF5.", particle_id);
@@ -525,7 +525,7 @@ impl PData {
                         particle_id,
                         self.file.filename()
                     );
-                    Array1::<f64>::zeros(part_vel.len() / 3)
+                    Array1::<f64>::ones(part_vel.len() / 3)
                 }
             };
 
@@ -787,7 +787,7 @@ impl PData {
                         particle_id,
                         self.file.filename()
                     );
-                    Array1::<f64>::zeros(part_vel.len() / 3)
+                    Array1::<f64>::ones(part_vel.len() / 3)
                 }
             };
 
-- 
2.43.0


From 57f9c2b1679a5416d600073670ac47f742702b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 28/62] fix: get_timestep_buffer returns the requested step of
 the requested buffer (PData)

---
 src/datamanager/pdata.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 6037b15..f443d95 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -1117,18 +1117,14 @@ impl DataManager for PData {
             self.range_extra[buffer_id]
         );
         if timestep > self.range_extra[buffer_id].1 - 1 {
-            self.update_extra((timestep, timestep + self.buffersize), buffer_id);
-        } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
-            && timestep < self.range_extra[buffer_id].0
-        {
-            self.update_extra((0, BUFFERSIZE), buffer_id);
+            self.update_extra((timestep, timestep + BUFFERSIZE), buffer_id);
         }
         // If a timestep below the current range is requested, update buffer
         if timestep < self.range_extra[buffer_id].0 {
-            self.update_extra((timestep, timestep + self.buffersize), buffer_id);
+            self.update_extra((timestep, timestep + BUFFERSIZE), buffer_id);
         }
 
-        &self.buffer[timestep - self.range_extra[buffer_id].0]
+        &self.extra_buffers[buffer_id][timestep - self.range_extra[buffer_id].0]
     }
 
     fn info(&self) -> Result<String, &'static str> {
-- 
2.43.0


From eb2e11ec4355673a37e4517217c7a55d0f3dcf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 29/62] fix: go back in an extra buffer beyond the first
 (TData)

---
 src/datamanager/tdata.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index b3cad37..cedc066 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -1100,17 +1100,10 @@ impl DataManager for TData {
                 (timestep, timestep + self.buffersize_extra[buffer_id]),
                 buffer_id,
             );
-        } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
-            && timestep < self.range_extra[buffer_id].0
-        {
-            self.update_extra((0, BUFFERSIZE), buffer_id);
         }
         // If a timestep below the current range is requested, update buffer
-        if timestep < self.range.0 {
-            self.update_extra(
-                (timestep, timestep + self.buffersize_extra[buffer_id]),
-                buffer_id,
-            );
+        if timestep < self.range_extra[buffer_id].0 {
+            self.update_extra((timestep, timestep + BUFFERSIZE), buffer_id);
         }
         &self.buffer_extra[buffer_id][timestep - self.range_extra[buffer_id].0]
     }
-- 
2.43.0


From 721c6064861f1e26da8cc7b9773860d2a0cbd01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 30/62] fix: unbuffered reads of particle files with several
 particles

---
 src/datamanager/pdata.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index f443d95..eec336a 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -122,19 +122,7 @@ impl PData {
                     )
                 })
                 .slice(s![timestep, ..])
-                .to_owned()
-                .into_shape((particles, 3))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not shape dataset \"position\" in file {} into a ({}, 3) array",
-                        self.file.filename(),
-                        particles
-                    )
-                })
-                .axis_iter(Axis(0))
-                .map(|x| [x[0], x[1], x[2]])
-                .collect::<Array1<Position>>();
-            // iter over elements in 2D array. make  it a 1D array of static arrays with 3 elements.
+                .to_owned();
 
             print_debug!("\tParticle {}: Extracting velocity from HDF5.", particle_id);
             let part_vel = self
@@ -315,7 +303,7 @@ impl PData {
                 .to_owned()[timestep];
 
             //position.slice_mut(s![particle_id]).assign(&part_pos);
-            position[particle_id] = part_pos[particle_id];
+            position[particle_id] = [part_pos[0], part_pos[1], part_pos[2]];
             velocity.slice_mut(s![particle_id, ..]).assign(&part_vel);
 
             //radius.slice_mut(s![particle_id]).assign(&part_rad);
-- 
2.43.0


From 8c442441a978e8d9e8e77b350f04591ca44d09bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 31/62] fix: unbuffered reads of particle files agree with
 buffered reads on ids and missing columns

---
 src/datamanager/pdata.rs | 106 +++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 60 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index eec336a..755536e 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -154,88 +154,74 @@ impl PData {
 
             //Radius
             print_debug!("\tParticle {}: Extracting radius from HDF5.", particle_id);
-            let part_rad = self
+            let part_rad = match self
                 .file
                 .group(&format!("particle {}", particle_id))
                 .unwrap_or_else(|_| {
                     panic!(
-                        "Can not fine particle {} in file {}",
+                        "Can not find particle {} in file {}",
                         particle_id,
                         self.file.filename()
                     )
                 })
                 .dataset("radius")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"radius\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"radius\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
+            {
+                Ok(s) => s
+                    .read_1d::<f64>()
+                    .unwrap_or_else(|_| {
+                        panic!(
+                            "Can not read data from \"radius\" dataset. \
+                        Data type or data format might be wrong. \
+                        Check creation of HDF5 file  \"{:?}\"",
+                            self.file.filename()
+                        )
+                    })
+                    .to_owned()[timestep],
+                Err(_) => {
+                    print_warning!(
+                        "\tParticle {}: Could not find radius in HDF5 file {}. \
+                        Using zeros instead.",
+                        particle_id,
                         self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
+                    );
+                    0.0
+                }
+            };
 
-            let part_type = self
+            let part_type = match self
                 .file
                 .group(&format!("particle {}", particle_id))
                 .unwrap_or_else(|_| {
                     panic!(
-                        "Can not fine particle {} in file {}",
+                        "Can not find particle {} in file {}",
                         particle_id,
                         self.file.filename()
                     )
                 })
                 .dataset("particletype")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"particletype\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"particletype\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
-            let part_id = self
-                .file
-                .group(&format!("particle {}", particle_id))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not fine particle {} in file {}",
+            {
+                Ok(s) => s
+                    .read_1d::<f64>()
+                    .unwrap_or_else(|_| {
+                        panic!(
+                            "Can not read data from \"particletype\" dataset. \
+                        Data type or data format might be wrong. \
+                        Check creation of HDF5 file  \"{:?}\"",
+                            self.file.filename()
+                        )
+                    })
+                    .to_owned()[timestep],
+                Err(_) => {
+                    print_warning!(
+                        "\tParticle {}: Could not find particletype in HDF5 file {}. \
+                        Using zeros instead.",
                         particle_id,
                         self.file.filename()
-                    )
-                })
-                .dataset("id")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"id\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"id\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
+                    );
+                    0.0
+                }
+            };
+            let part_id = particle_id as f64;
 
             //.slice(s![timestep])
 
-- 
2.43.0


From 6c7633c2b54af03e248abfa333903c2478f01340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 32/62] fix: refuse to return timesteps beyond the end of the
 file

---
 src/datamanager/pdata.rs | 12 ++++++++++++
 src/datamanager/tdata.rs | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 755536e..83f471a 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -882,6 +882,12 @@ impl PData {
 impl DataManager for PData {
     // return a array from a given dataset at a given timestep
     fn get_timestep(&mut self, timestep: usize) -> &Timestep {
+        assert!(
+            timestep < self.global_stats_.ntimesteps,
+            "Timestep {} is out of range, the file has {} timesteps",
+            timestep,
+            self.global_stats_.ntimesteps
+        );
         print_debug!("PData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
@@ -1082,6 +1088,12 @@ impl DataManager for PData {
 
     /// read from other buffer then the main one
     fn get_timestep_buffer(&mut self, timestep: usize, buffer_id: usize) -> &Timestep {
+        assert!(
+            timestep < self.global_stats_.ntimesteps,
+            "Timestep {} is out of range, the file has {} timesteps",
+            timestep,
+            self.global_stats_.ntimesteps
+        );
         print_debug!("PData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index cedc066..5392517 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -886,6 +886,12 @@ impl TData {
 impl DataManager for TData {
     // return a array from a given dataset at a given timestep
     fn get_timestep(&mut self, timestep: usize) -> &Timestep {
+        assert!(
+            timestep < self.global_stats_.ntimesteps,
+            "Timestep {} is out of range, the file has {} timesteps",
+            timestep,
+            self.global_stats_.ntimesteps
+        );
         print_debug!("TData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
@@ -1087,6 +1093,12 @@ impl DataManager for TData {
 
     /// read from other buffer then the main one
     fn get_timestep_buffer(&mut self, timestep: usize, buffer_id: usize) -> &Timestep {
+        assert!(
+            timestep < self.global_stats_.ntimesteps,
+            "Timestep {} is out of range, the file has {} timesteps",
+            timestep,
+            self.global_stats_.ntimesteps
+        );
         print_debug!("PData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
-- 
2.43.0


From 7cea5ecba59733d795be55db37ac1501e0466840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 33/62] fix: a smallest value of a converted column may be its
 largest too

---
 src/converter.rs                              | 33 ++++++++++++-------
 src/converter/csv_modes/csv_multi_chain.rs    | 15 ++++++---
 .../csv_modes/csv_multi_file_time_step.rs     | 15 ++++++---
 src/converter/csv_modes/csv_multi_idline.rs   | 21 ++++++++----
 4 files changed, 56 insertions(+), 28 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index cf7a837..d73c35b 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -229,7 +229,8 @@ pub fn csv_converter(
             print_debug!("  i: {}", i);
             if vel[i] < velocity[[i, 0]] {
                 velocity[[i, 0]] = vel[i];
-            } else if vel[i] > velocity[[i, 2]] {
+            }
+            if vel[i] > velocity[[i, 2]] {
                 velocity[[i, 2]] = vel[i];
             }
             velocity[[i, 1]] += vel[i];
@@ -239,24 +240,28 @@ pub fn csv_converter(
         // check if vel magnitude is bigger or smaller then the current biggest or smallest
         if vel_mag < velocity_mag[0] {
             velocity_mag[0] = vel_mag;
-        } else if vel_mag > velocity_mag[2] {
+        }
+        if vel_mag > velocity_mag[2] {
             velocity_mag[2] = vel_mag;
         }
         velocity_mag[1] += vel_mag;
 
         if pos[0] < dimensions[[0, 0]] {
             dimensions[[0, 0]] = pos[0];
-        } else if pos[0] > dimensions[[1, 0]] {
+        }
+        if pos[0] > dimensions[[1, 0]] {
             dimensions[[1, 0]] = pos[0];
         }
         if pos[1] < dimensions[[0, 1]] {
             dimensions[[0, 1]] = pos[1];
-        } else if pos[1] > dimensions[[1, 1]] {
+        }
+        if pos[1] > dimensions[[1, 1]] {
             dimensions[[1, 1]] = pos[1];
         }
         if pos[2] < dimensions[[0, 2]] {
             dimensions[[0, 2]] = pos[2];
-        } else if pos[2] > dimensions[[1, 2]] {
+        }
+        if pos[2] > dimensions[[1, 2]] {
             dimensions[[1, 2]] = pos[2];
         }
         step += 1;
@@ -740,7 +745,8 @@ impl XMLVTKConverter {
                     print_debug!("  i: {}", i);
                     if vel[i] < velocity[[i, 0]] {
                         velocity[[i, 0]] = vel[i];
-                    } else if vel[i] > velocity[[i, 2]] {
+                    }
+                    if vel[i] > velocity[[i, 2]] {
                         velocity[[i, 2]] = vel[i];
                     }
                     velocity[[i, 1]] += vel[i];
@@ -748,7 +754,8 @@ impl XMLVTKConverter {
                 let vel_mag = vel.map(|v| v * v).sum().sqrt();
                 if vel_mag < velocity_mag[0] {
                     velocity_mag[0] = vel_mag;
-                } else if vel_mag > velocity_mag[2] {
+                }
+                if vel_mag > velocity_mag[2] {
                     velocity_mag[2] = vel_mag;
                 }
                 velocity_mag[1] += vel_mag;
@@ -773,7 +780,8 @@ impl XMLVTKConverter {
                 for i in 0..3 {
                     if pos[i] < dimensions[[0, i]] {
                         dimensions[[0, i]] = pos[i];
-                    } else if pos[i] > dimensions[[1, i]] {
+                    }
+                    if pos[i] > dimensions[[1, i]] {
                         dimensions[[1, i]] = pos[i];
                     }
                 }
@@ -1166,7 +1174,8 @@ impl LegacyVTKConverter {
                     print_debug!("  i: {}", i);
                     if vel[i] < velocity[[i, 0]] {
                         velocity[[i, 0]] = vel[i];
-                    } else if vel[i] > velocity[[i, 2]] {
+                    }
+                    if vel[i] > velocity[[i, 2]] {
                         velocity[[i, 2]] = vel[i];
                     }
                     velocity[[i, 1]] += vel[i];
@@ -1174,7 +1183,8 @@ impl LegacyVTKConverter {
                 let vel_mag = vel.map(|v| v * v).sum().sqrt();
                 if vel_mag < velocity_mag[0] {
                     velocity_mag[0] = vel_mag;
-                } else if vel_mag > velocity_mag[2] {
+                }
+                if vel_mag > velocity_mag[2] {
                     velocity_mag[2] = vel_mag;
                 }
                 velocity_mag[1] += vel_mag;
@@ -1197,7 +1207,8 @@ impl LegacyVTKConverter {
                 for i in 0..3 {
                     if pos[i] < dimensions[[0, i]] {
                         dimensions[[0, i]] = pos[i];
-                    } else if pos[i] > dimensions[[1, i]] {
+                    }
+                    if pos[i] > dimensions[[1, i]] {
                         dimensions[[1, i]] = pos[i];
                     }
                 }
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 94c9f6a..220502b 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -243,7 +243,8 @@ pub fn csv_multi_chain(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -253,24 +254,28 @@ pub fn csv_multi_chain(
             // check if vel magnitude is bigger or smaller then the current biggest or smallest
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
 
             if pos[0] < dimensions[[0, 0]] {
                 dimensions[[0, 0]] = pos[0];
-            } else if pos[0] > dimensions[[1, 0]] {
+            }
+            if pos[0] > dimensions[[1, 0]] {
                 dimensions[[1, 0]] = pos[0];
             }
             if pos[1] < dimensions[[0, 1]] {
                 dimensions[[0, 1]] = pos[1];
-            } else if pos[1] > dimensions[[1, 1]] {
+            }
+            if pos[1] > dimensions[[1, 1]] {
                 dimensions[[1, 1]] = pos[1];
             }
             if pos[2] < dimensions[[0, 2]] {
                 dimensions[[0, 2]] = pos[2];
-            } else if pos[2] > dimensions[[1, 2]] {
+            }
+            if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
             //step += 1;
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index bc52020..318914b 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -159,7 +159,8 @@ pub fn csv_multi_file_time_step(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -167,7 +168,8 @@ pub fn csv_multi_file_time_step(
             let vel_mag = vel.map(|v| v * v).sum().sqrt();
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
@@ -184,7 +186,8 @@ pub fn csv_multi_file_time_step(
             for i in 0..3 {
                 if pos[i] < dimensions[[0, i]] {
                     dimensions[[0, i]] = pos[i];
-                } else if pos[i] > dimensions[[1, i]] {
+                }
+                if pos[i] > dimensions[[1, i]] {
                     dimensions[[1, i]] = pos[i];
                 }
             }
@@ -287,12 +290,14 @@ fn sort_by_id(data: ndarray::Array2<f64>) -> (Vec<ndarray::Array2<f64>>, f64, us
 
             if id < min_id {
                 min_id = id;
-            } else if id > max_id {
+            }
+            if id > max_id {
                 max_id = id;
             }
             if t < min_t {
                 min_t = t;
-            } else if t > max_t {
+            }
+            if t > max_t {
                 max_t = t;
             }
             if !ids.contains(&id) {
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index ba5e15e..6521519 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -216,7 +216,8 @@ pub fn csv_multi_idline(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -226,24 +227,28 @@ pub fn csv_multi_idline(
             // check if vel magnitude is bigger or smaller then the current biggest or smallest
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
 
             if pos[0] < dimensions[[0, 0]] {
                 dimensions[[0, 0]] = pos[0];
-            } else if pos[0] > dimensions[[1, 0]] {
+            }
+            if pos[0] > dimensions[[1, 0]] {
                 dimensions[[1, 0]] = pos[0];
             }
             if pos[1] < dimensions[[0, 1]] {
                 dimensions[[0, 1]] = pos[1];
-            } else if pos[1] > dimensions[[1, 1]] {
+            }
+            if pos[1] > dimensions[[1, 1]] {
                 dimensions[[1, 1]] = pos[1];
             }
             if pos[2] < dimensions[[0, 2]] {
                 dimensions[[0, 2]] = pos[2];
-            } else if pos[2] > dimensions[[1, 2]] {
+            }
+            if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
             //step += 1;
@@ -384,12 +389,14 @@ fn sort_by_id(data: ndarray::Array2<f64>) -> (Vec<ndarray::Array2<f64>>, f64, us
 
             if id < min_id {
                 min_id = id;
-            } else if id > max_id {
+            }
+            if id > max_id {
                 max_id = id;
             }
             if t < min_t {
                 min_t = t;
-            } else if t > max_t {
+            }
+            if t > max_t {
                 max_t = t;
             }
             if !ids.contains(&id) {
-- 
2.43.0


From d7ed8b8005fd17514b423fd8e2d06623c3da70b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 34/62] fix: convert the rows of csv files at time zero and
 before

---
 src/converter.rs                            | 2 +-
 src/converter/csv_modes/csv_multi_chain.rs  | 2 +-
 src/converter/csv_modes/csv_multi_idline.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index d73c35b..acd5819 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -175,7 +175,7 @@ pub fn csv_converter(
 
     let mut mean_counter: usize = 0;
     let mut failcount = 0;
-    let mut old_time = 0.0; // TIme of the last falid timestep
+    let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
     let mut step = 0;
     print_debug!("Creating a new group \"particle {}\"", step);
     let group = hdf5file
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 220502b..42cf5fb 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -192,7 +192,7 @@ pub fn csv_multi_chain(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
-        let mut old_time = 0.0; // TIme of the last falid timestep
+        let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
         let group = hdf5file
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 6521519..b7374a1 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -164,7 +164,7 @@ pub fn csv_multi_idline(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
-        let mut old_time = 0.0; // TIme of the last falid timestep
+        let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
         let group = hdf5file
-- 
2.43.0


From b608fa97926043a6e452a4dd15a6f20184fe194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 35/62] fix: store the time between the timesteps of converted
 files

---
 src/converter.rs                                    | 11 ++++++-----
 src/converter/csv_modes/csv_multi_chain.rs          |  7 ++++---
 src/converter/csv_modes/csv_multi_file_time_step.rs |  2 +-
 src/converter/csv_modes/csv_multi_idline.rs         |  7 ++++---
 4 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index acd5819..d8e5da8 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -208,7 +208,6 @@ pub fn csv_converter(
         time_array[line_id - total_failcount] = current_time;
         // resetfailcount. we only dont allow them do be in a row!
         failcount = 0;
-        old_time = current_time;
         let pos_x = line[1];
         let pos_y = line[2];
         let pos_z = line[3];
@@ -266,7 +265,9 @@ pub fn csv_converter(
         }
         step += 1;
         mean_counter += 1;
-        sample_rate = current_time - old_time;
+        if old_time.is_finite() {
+            sample_rate = current_time - old_time;
+        }
         if current_time > time[1] {
             time[1] = current_time;
         }
@@ -354,7 +355,7 @@ pub fn csv_converter(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
@@ -833,7 +834,7 @@ impl XMLVTKConverter {
             .write_scalar(&timesteps)
             .unwrap();
         output_file
-            .new_attr::<u64>()
+            .new_attr::<f64>()
             .create("sample rate")
             .unwrap()
             .write_scalar(&sample_rate)
@@ -1260,7 +1261,7 @@ impl LegacyVTKConverter {
             .write_scalar(&timesteps)
             .unwrap();
         output_file
-            .new_attr::<u64>()
+            .new_attr::<f64>()
             .create("sample rate")
             .unwrap()
             .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 42cf5fb..315c102 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -222,7 +222,6 @@ pub fn csv_multi_chain(
             time_array[line_id] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
-            old_time = current_time;
             let pos_x = line[1];
             let pos_y = line[2];
             let pos_z = line[3];
@@ -280,7 +279,9 @@ pub fn csv_multi_chain(
             }
             //step += 1;
             mean_counter += 1;
-            sample_rate = current_time - old_time;
+            if old_time.is_finite() {
+                sample_rate = current_time - old_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
@@ -368,7 +369,7 @@ pub fn csv_multi_chain(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 318914b..6e477c7 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -239,7 +239,7 @@ pub fn csv_multi_file_time_step(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index b7374a1..25a9aba 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -194,7 +194,6 @@ pub fn csv_multi_idline(
             time_array[line_id] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
-            old_time = current_time;
             let pos_x = line[1];
             let pos_y = line[2];
             let pos_z = line[3];
@@ -253,7 +252,9 @@ pub fn csv_multi_idline(
             }
             //step += 1;
             mean_counter += 1;
-            sample_rate = current_time - old_time;
+            if old_time.is_finite() {
+                sample_rate = current_time - old_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
@@ -340,7 +341,7 @@ pub fn csv_multi_idline(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
-- 
2.43.0


From fb96bd9f47cd48013ccdb4c3963a9b87da5eec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 36/62] fix: store the time of the first timestep of converted
 csv files

---
 src/converter.rs                                    | 5 ++++-
 src/converter/csv_modes/csv_multi_chain.rs          | 5 ++++-
 src/converter/csv_modes/csv_multi_file_time_step.rs | 5 ++++-
 src/converter/csv_modes/csv_multi_idline.rs         | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index d8e5da8..f9ee231 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -162,7 +162,7 @@ pub fn csv_converter(
     let mut pos_array = Array2::<f64>::zeros((data_length, 3));
     // ######### arrays for Attributes:
     let timesteps: usize = data_length;
-    let mut time: Array1<f64> = Array1::<f64>::zeros(2);
+    let mut time: Array1<f64> = ndarray::array![f64::MAX, f64::MIN];
     let mut sample_rate: f64 = 0.0;
     //velocity: [x:[min, mean, max],y:[min,mean,max],z:[min,mean,max]]
     let mut velocity: Array2<f64> = Array2::<f64>::zeros((3, 3));
@@ -268,6 +268,9 @@ pub fn csv_converter(
         if old_time.is_finite() {
             sample_rate = current_time - old_time;
         }
+        if current_time < time[0] {
+            time[0] = current_time;
+        }
         if current_time > time[1] {
             time[1] = current_time;
         }
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 315c102..07cf852 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -171,7 +171,7 @@ pub fn csv_multi_chain(
     velocity_mag[2] = f64::MIN;
     // ######### arrays for Attributes:
     let mut timesteps: usize = 0;
-    let mut time: ndarray::Array1<f64> = ndarray::Array1::<f64>::zeros(2);
+    let mut time: ndarray::Array1<f64> = ndarray::array![f64::MAX, f64::MIN];
     let mut sample_rate: f64 = 0.0;
     let mut time_array = ndarray::Array1::<f64>::zeros(100); // random value as it will be overwritten anyways
     for (p_id, data) in particle_data.iter().enumerate() {
@@ -282,6 +282,9 @@ pub fn csv_multi_chain(
             if old_time.is_finite() {
                 sample_rate = current_time - old_time;
             }
+            if current_time < time[0] {
+                time[0] = current_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 6e477c7..9f16d2d 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -55,7 +55,7 @@ pub fn csv_multi_file_time_step(
     dimensions.slice_mut(ndarray::s![1usize, ..]).fill(f64::MIN);
     let mut nparticles: u64 = 0;
     let timesteps: usize = filenames.len();
-    let mut time: ndarray::Array1<f64> = ndarray::Array1::<f64>::zeros(2);
+    let mut time: ndarray::Array1<f64> = ndarray::array![f64::MAX, f64::MIN];
     let mut time_array = Vec::<f64>::new();
     let mut sample_rate: f64 = 0.0;
     let mut old_time = 0.0;
@@ -74,6 +74,9 @@ pub fn csv_multi_file_time_step(
             .create_group(&format!("timestep {}", id))
             .unwrap_or_else(|_| panic!("Can not create group timestep {}", id));
         let current_time = time_[id];
+        if current_time < time[0] {
+            time[0] = current_time;
+        }
         if current_time > time[1] {
             time[1] = current_time;
         }
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 25a9aba..5bfd47c 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -142,7 +142,7 @@ pub fn csv_multi_idline(
     velocity_mag[2] = f64::MIN;
     // ######### arrays for Attributes:
     let mut timesteps: usize = 0;
-    let mut time: ndarray::Array1<f64> = ndarray::Array1::<f64>::zeros(2);
+    let mut time: ndarray::Array1<f64> = ndarray::array![f64::MAX, f64::MIN];
     let mut sample_rate: f64 = 0.0;
     let mut time_array = ndarray::Array1::<f64>::zeros(100); // random value as it will be overwritten anyways
     bar.inc(10);
@@ -255,6 +255,9 @@ pub fn csv_multi_idline(
             if old_time.is_finite() {
                 sample_rate = current_time - old_time;
             }
+            if current_time < time[0] {
+                time[0] = current_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
-- 
2.43.0


From 8e52313e7a84bd7e6d8b948b9a8bc1575a75405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 37/62] fix: store the number of particles of csv files with
 several particles

---
 src/converter/csv_modes/csv_multi_chain.rs  | 2 +-
 src/converter/csv_modes/csv_multi_idline.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 07cf852..ce47c73 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -363,7 +363,7 @@ pub fn csv_multi_chain(
         .new_attr::<u64>()
         .create("particle number")
         .unwrap()
-        .write_scalar(&1_usize)
+        .write_scalar(&particle_data.len())
         .unwrap();
     hdf5file
         .new_attr::<u64>()
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 5bfd47c..068ed3e 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -335,7 +335,7 @@ pub fn csv_multi_idline(
         .new_attr::<u64>()
         .create("particle number")
         .unwrap()
-        .write_scalar(&1_usize)
+        .write_scalar(&particle_data.len())
         .unwrap();
     hdf5file
         .new_attr::<u64>()
-- 
2.43.0


From 112244e689c9d87eb4423903b262fa7f057ebd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 38/62] fix: velocities from positions belong to the middle of
 the sampling steps

---
 src/converter/convertertools.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index 2bb51ac..fbf3ce2 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -169,23 +169,20 @@ pub fn velocity_polynom(
         let vx: f64 = param_x
             .iter()
             .enumerate()
-            .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
-            })
+            .skip(1)
+            .map(|(n, param)| param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.))
             .sum();
         let vy: f64 = param_y
             .iter()
             .enumerate()
-            .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
-            })
+            .skip(1)
+            .map(|(n, param)| param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.))
             .sum();
         let vz: f64 = param_z
             .iter()
             .enumerate()
-            .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
-            })
+            .skip(1)
+            .map(|(n, param)| param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.))
             .sum();
         new_data[[id - (sampling_steps - 1) / 2, 0]] = data[[id, 0]];
         new_data[[id - (sampling_steps - 1) / 2, 1]] = data[[id, 1]];
-- 
2.43.0


From 6b227759087f106a94b78bb39ef4545fd9da40c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 39/62] fix: interpolate to a constant timestep up to the last
 row and across gaps

---
 src/converter/convertertools.rs | 89 ++++++++++-----------------------
 1 file changed, 27 insertions(+), 62 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index fbf3ce2..6a480bc 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -29,7 +29,8 @@ pub fn interpolate(
 
     let maxtime = max_time;
     let timesteps = steps;
-    let dt = maxtime / timesteps as f64;
+    // the last timestep is the one at the maximum time
+    let dt = maxtime / (timesteps - 1) as f64;
     // First timestep:
     let mut interp_data = ndarray::Array2::<f64>::zeros((steps, 4));
     // first timestep:
@@ -46,73 +47,37 @@ pub fn interpolate(
     let mut real_step = 1;
     for step in 1..timesteps - 1 {
         let time_new = step as f64 * dt;
-        // find the next indx in the real data which may be the old one
-        real_step = {
-            // if the temporal distance between new time and old time is smaller
-            // then distance between new time and next time return old timestep
-            print_debug!("Real_step:{} time_len {}", real_step, time.len());
-            if real_step < time.len() - 1 {
-                let old_time = time[real_step];
-                let new_time = time[real_step + 1];
-                print_debug!("Old time: {} New time: {}", old_time, new_time);
-                if new_time < old_time {
-                    real_step += 1;
-                } else if (time_new - old_time).abs() < (time_new - new_time).abs() {
-                } else {
-                    real_step += 1;
-                    if real_step < time.len() - 1 {
-                        let old_time = time[real_step];
-                        let new_time = time[real_step + 1];
-
-                        if (time_new - old_time).abs() < (time_new - new_time).abs() {
-                        } else {
-                            real_step += 1;
-                        }
-                    }
-                }
-            }
-            real_step
-        };
-        print_debug!("Interpolate:  step: {}, real_step: {}, time_new: {}, time[real_step]: {}, time[real_step+1]: {}", step, real_step, time_new, time[real_step], time[real_step+1]);
-
-        if real_step >= data.shape()[0] - 1 {
+        // find the index of the closest timestep in the real data which may be the old one
+        while real_step < time.len() - 1
+            && (time_new - time[real_step]).abs() >= (time_new - time[real_step + 1]).abs()
+        {
+            real_step += 1;
+        }
+        print_debug!(
+            "Interpolate:  step: {}, real_step: {}, time_new: {}, time[real_step]: {}",
+            step,
+            real_step,
+            time_new,
+            time[real_step]
+        );
+        // the neighbours of this timestep, the last one has only one
+        let (before, after) = (real_step - 1, (real_step + 1).min(time.len() - 1));
+        if data[[before, 0]] == data[[after, 0]] {
             interp_data[[step, 0]] = time_new;
             interp_data[[step, 1]] = f64::NAN;
             interp_data[[step, 2]] = f64::NAN;
             interp_data[[step, 3]] = f64::NAN;
-        } else {
-            if data[[real_step - 1, 0]] == data[[real_step + 1, 0]] {
-                interp_data[[step, 0]] = time_new;
-                interp_data[[step, 1]] = f64::NAN;
-                interp_data[[step, 2]] = f64::NAN;
-                interp_data[[step, 3]] = f64::NAN;
-                continue;
-            }
-            let x_new = interpolate_step(
-                data[[real_step - 1, 0]],
-                data[[real_step + 1, 0]],
-                time_new,
-                data[[real_step - 1, 1]],
-                data[[real_step + 1, 1]],
-            );
-            let y_new = interpolate_step(
-                data[[real_step - 1, 0]],
-                data[[real_step + 1, 0]],
-                time_new,
-                data[[real_step - 1, 2]],
-                data[[real_step + 1, 2]],
-            );
-            let z_new = interpolate_step(
-                data[[real_step - 1, 0]],
-                data[[real_step + 1, 0]],
+            continue;
+        }
+        interp_data[[step, 0]] = time_new;
+        for axis in 1..4 {
+            interp_data[[step, axis]] = interpolate_step(
+                data[[before, 0]],
+                data[[after, 0]],
                 time_new,
-                data[[real_step - 1, 3]],
-                data[[real_step + 1, 3]],
+                data[[before, axis]],
+                data[[after, axis]],
             );
-            interp_data[[step, 0]] = time_new;
-            interp_data[[step, 1]] = x_new;
-            interp_data[[step, 2]] = y_new;
-            interp_data[[step, 3]] = z_new;
         }
         if step % 20000 == 0 {
             //bar.inc(20000);
-- 
2.43.0


From b12b8029dc4f7a75abe8e8ea4564f397d202716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 40/62] fix: leave out ignored rows of csv files with several
 particles instead of storing zeros

---
 src/converter/csv_modes/csv_multi_idline.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 068ed3e..344d9fe 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -150,9 +150,6 @@ pub fn csv_multi_idline(
         // progress bar
         println!("{:?}", data.shape());
         let data_length = data.column(0).len();
-        if data_length > timesteps {
-            timesteps = data_length;
-        }
         // Attributes
         // arrays that will be saved:
         time_array = ndarray::Array1::<f64>::zeros(data_length);
@@ -175,12 +172,14 @@ pub fn csv_multi_idline(
             panic!("Velocity information required")
         }
         // Go through every line of the csv file
+        let mut total_failcount = 0;
         for (line_id, line) in data.outer_iter().enumerate() {
             let current_time = line[0];
             if current_time <= old_time {
                 // The particle went back in time
                 // This is not possible and must be ignored.
                 failcount += 1;
+                total_failcount += 1;
                 if failcount > MAX_FAILS {
                     panic!(
                         "Maximum amount of points that are behind the current \
@@ -191,6 +190,7 @@ pub fn csv_multi_idline(
                 }
                 continue;
             }
+            let line_id = line_id - total_failcount;
             time_array[line_id] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
@@ -267,6 +267,18 @@ pub fn csv_multi_idline(
             }
         } // end filename forloop
           // write data into HDF5 file
+          // without the rows that were ignored
+        let data_length = data_length - total_failcount;
+        if data_length > timesteps {
+            timesteps = data_length;
+        }
+        time_array = time_array.slice(ndarray::s![..data_length]).to_owned();
+        let particle_id_array = particle_id_array.slice(ndarray::s![..data_length]);
+        let particle_radius_array = particle_radius_array.slice(ndarray::s![..data_length]);
+        let ppclouds_array = ppclouds_array.slice(ndarray::s![..data_length]);
+        let particle_type_array = particle_type_array.slice(ndarray::s![..data_length]);
+        let vel_array = vel_array.slice(ndarray::s![..data_length, ..]);
+        let pos_array = pos_array.slice(ndarray::s![..data_length, ..]);
         let builder = group.new_dataset_builder();
         builder
             .with_data(&time_array)
-- 
2.43.0


From 681887509abc4cb10cc01150fa0479932ae06d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 41/62] fix: find the .vtu and .vtp files of a folder

---
 src/converter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/converter.rs b/src/converter.rs
index f9ee231..d143e67 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -548,7 +548,10 @@ impl XMLVTKConverter {
         let mut out_vec: Vec<&str> = Vec::new();
         for filename_ in filenames.iter() {
             let filename = filename_.to_str().unwrap();
-            if filename.ends_with(".vtk") && !filename.contains("boundingBox") {
+            let extension = filename_.extension().and_then(|e| e.to_str());
+            if matches!(extension, Some("vtk" | "vtu" | "vtp"))
+                && !filename.contains("boundingBox")
+            {
                 print_debug!("\t Found file: {}", filename);
             } else {
                 print_debug!("\t Ignoring file: {}", filename);
-- 
2.43.0


From b91011cba296e24f457df5b21158246dc4d8ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 42/62] fix: store the largest number of particles of a
 sequence of csv files

---
 src/converter/csv_modes/csv_multi_file_time_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 9f16d2d..e8d958f 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -203,7 +203,7 @@ pub fn csv_multi_file_time_step(
                 panic!("Unable to create dataset \"position\" in file {}", filename)
             });
         mean_counter += particle_id.len();
-        nparticles = particle_id.len() as u64;
+        nparticles = nparticles.max(particle_id.len() as u64);
         sample_rate = current_time - old_time;
         old_time = current_time;
         if id % 10 == 0 {
-- 
2.43.0


From fef1c5a436f35d07a6239804d13e96d22aead920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 43/62] fix: use the radius given for a sequence of csv files

---
 src/converter/csv_modes/csv_multi_file_time_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index e8d958f..b787e06 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -128,7 +128,7 @@ pub fn csv_multi_file_time_step(
         let builder = group.new_dataset_builder();
         let zero_array = vec![0.0; particle_id.len()];
         builder
-            .with_data(&zero_array)
+            .with_data(&vec![radius; particle_id.len()])
             .create("radius")
             .unwrap_or_else(|_| panic!("Unable to create dataset \"radius\" in file {}", filename));
 
-- 
2.43.0


From 956009d4fa74ce5f5d31514616bc6843d8ec00d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 44/62] fix: default delimiter, comment and method of csv_multi
 without quotes

---
 src/pylib/libconv.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pylib/libconv.rs b/src/pylib/libconv.rs
index 291c5d8..f107d11 100644
--- a/src/pylib/libconv.rs
+++ b/src/pylib/libconv.rs
@@ -461,13 +461,13 @@ impl PyConverter {
         filename,
         outname,
         columns = vec![0,1,2,3],
-        delimiter = "\",\"",
+        delimiter = ",",
         header = true,
-        comment = "\"#\"",
+        comment = "#",
         vel = false,
         interpolate = false,
         radius = 0.0,
-        method = "\"id_line\""
+        method = "id_line"
     ))]
     #[staticmethod]
     fn csv_multi(
-- 
2.43.0


From eb9eacb480153b98b7d625c94c5670b9abb1b9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 45/62] fix: store the particle type of chained csv files under
 its name

---
 src/converter/csv_modes/csv_multi_chain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index ce47c73..0939193 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -318,10 +318,10 @@ pub fn csv_multi_chain(
         let builder = group.new_dataset_builder();
         builder
             .with_data(&particle_type_array)
-            .create("particleid")
+            .create("particletype")
             .unwrap_or_else(|_| {
                 panic!(
-                    "Unable to create dataset \"particleid\" in file {}",
+                    "Unable to create dataset \"particletype\" in file {}",
                     filename
                 )
             });
-- 
2.43.0


From 77ff5341ec1e563b821d4cfeefdc51f0abea4903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 46/62] fix: convert the last particle of chained csv files

---
 src/converter/csv_modes/csv_multi_chain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 0939193..15a2859 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -84,6 +84,10 @@ pub fn csv_multi_chain(
             }
             old_time = *time;
         }
+        // the last particle ends with the file
+        duration.push(old_time);
+        steps_per_particle.push(data.shape()[0] - indx_start[particles]);
+        particles += 1;
         let max_duration = duration.iter().fold(0.0, |a, &b| if a > b { a } else { b });
         let max_steps = steps_per_particle
             .iter()
-- 
2.43.0


From 774232cf208508ea405662ba70ea1b6df25a41f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:37 +0000
Subject: [PATCH 47/62] fix: precise velocities of converted files when the
 sampling has gaps

---
 src/converter/convertertools.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index 6a480bc..6882b22 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -113,7 +113,11 @@ pub fn velocity_polynom(
             ..
         ]);
         let time = datasegment.column(0).to_owned();
-        let time = (&time - time[0]).to_vec();
+        // the fit is only precise with times around zero that are not much larger than one
+        let time = &time - time[(sampling_steps - 1) / 2];
+        let span = time.iter().fold(0.0, |max: f64, t| max.max(t.abs()));
+        let span = if span > 0.0 { span } else { 1.0 };
+        let time = (time / span).to_vec();
         //println!("Time len: {}", time.len());
         //println!("Time: {:?}", time);
 
@@ -136,19 +140,22 @@ pub fn velocity_polynom(
             .enumerate()
             .skip(1)
             .map(|(n, param)| param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.))
-            .sum();
+            .sum::<f64>()
+            / span;
         let vy: f64 = param_y
             .iter()
             .enumerate()
             .skip(1)
             .map(|(n, param)| param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.))
-            .sum();
+            .sum::<f64>()
+            / span;
         let vz: f64 = param_z
             .iter()
             .enumerate()
             .skip(1)
             .map(|(n, param)| param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.))
-            .sum();
+            .sum::<f64>()
+            / span;
         new_data[[id - (sampling_steps - 1) / 2, 0]] = data[[id, 0]];
         new_data[[id - (sampling_steps - 1) / 2, 1]] = data[[id, 1]];
         new_data[[id - (sampling_steps - 1) / 2, 2]] = data[[id, 2]];
-- 
2.43.0


From e0778652cae80064dbd3a2d9522a894970d76aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 48/62] fix: x positions of depth averaged quiver plots across
 the y axis

---
 src/plotting/plotting_2d/quiver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting/plotting_2d/quiver.rs b/src/plotting/plotting_2d/quiver.rs
index 99d5b55..59f7924 100644
--- a/src/plotting/plotting_2d/quiver.rs
+++ b/src/plotting/plotting_2d/quiver.rs
@@ -42,7 +42,7 @@ impl QuiverPlot {
 
     pub fn from_vector_grid_depth_averaged(grid: VectorGrid, axis: usize) -> QuiverPlot {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             grid.get_ypositions().to_owned()
         } else {
             grid.get_xpositions().to_owned()
-- 
2.43.0


From 50d3697449ddeaec5e82c57b0ed8467694a6ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 49/62] fix: x positions of parity maps and contours across the
 y axis

---
 src/plotting/plotting_2d/parity_contour.rs | 8 ++++----
 src/plotting/plotting_2d/parity_map.rs     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/plotting/plotting_2d/parity_contour.rs b/src/plotting/plotting_2d/parity_contour.rs
index d22f355..c577313 100644
--- a/src/plotting/plotting_2d/parity_contour.rs
+++ b/src/plotting/plotting_2d/parity_contour.rs
@@ -18,7 +18,7 @@ impl ParityContour {
         axis: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -70,7 +70,7 @@ impl ParityContour {
         index: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -133,7 +133,7 @@ impl ParityContour {
         axis: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -168,7 +168,7 @@ impl ParityContour {
         index: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
diff --git a/src/plotting/plotting_2d/parity_map.rs b/src/plotting/plotting_2d/parity_map.rs
index 4c74925..36ae3ad 100644
--- a/src/plotting/plotting_2d/parity_map.rs
+++ b/src/plotting/plotting_2d/parity_map.rs
@@ -20,7 +20,7 @@ impl ParityMap {
         axis: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -72,7 +72,7 @@ impl ParityMap {
         index: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -135,7 +135,7 @@ impl ParityMap {
         axis: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -170,7 +170,7 @@ impl ParityMap {
         index: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
-- 
2.43.0


From 3bf6f388793c1f1d02047a73e69fd879400a83cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 50/62] fix: check the maximum size of unit vector plots

---
 up4/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/up4/plotting.py b/up4/plotting.py
index ba0f815..8a4fb3b 100644
--- a/up4/plotting.py
+++ b/up4/plotting.py
@@ -325,7 +325,7 @@ class Plotter2D:
             index,
             scaling_mode=scaling_mode,
             min_size=min_size,
-            max_size=min_size,
+            max_size=max_size,
             colour_map=colour_map,
         )
         self._plotter._unit_vector_plot(
-- 
2.43.0


From 69b0c2b20ef2d27e48331e21fbf859ae00c4b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 51/62] fix: names of colour maps are case-insensitive

---
 src/pylib/libplot.rs | 2 +-
 up4/plotting.py      | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pylib/libplot.rs b/src/pylib/libplot.rs
index 1329292..a6b8453 100644
--- a/src/pylib/libplot.rs
+++ b/src/pylib/libplot.rs
@@ -547,7 +547,7 @@ impl PyPlotter2D {
 impl PyPlotter2D {
     fn get_gradient(&self, colour_map: Option<&str>) -> Option<Gradient> {
         // Once we get reflection, maybe this will look less bad??
-        match colour_map {
+        match colour_map.map(str::to_lowercase).as_deref() {
             Some("turbo") => Some(colorous::TURBO),
             Some("viridis") => Some(colorous::VIRIDIS),
             Some("inferno") => Some(colorous::INFERNO),
diff --git a/up4/plotting.py b/up4/plotting.py
index 8a4fb3b..917731d 100644
--- a/up4/plotting.py
+++ b/up4/plotting.py
@@ -1021,7 +1021,10 @@ class Plotter2D:
                 'Using scaling mode: "minmax" requires values for `min_size` and '
                 "`max_size` to be set"
             )
-        if colour_map is not None and colour_map not in valid_colour_map_values:
+        if (
+            colour_map is not None
+            and colour_map.lower() not in valid_colour_map_values
+        ):
             raise ValueError(
                 f"Colourmap value: {colour_map} is not valid. Valid values are"
                 f" {valid_colour_map_values}."
-- 
2.43.0


From fa74b4a96219437457b6a6bd3b8d41990243fb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:33 +0000
Subject: [PATCH 52/62] fix: colour maps of parity maps and contours

---
 src/pylib/libplot.rs | 56 +++++++++++++++++++++++++++++++++++++-------
 up4/plotting.py      | 12 ++++++----
 2 files changed, 55 insertions(+), 13 deletions(-)

diff --git a/src/pylib/libplot.rs b/src/pylib/libplot.rs
index a6b8453..c3d4cc6 100644
--- a/src/pylib/libplot.rs
+++ b/src/pylib/libplot.rs
@@ -14,7 +14,12 @@ use crate::{
 };
 use colorous::Gradient;
 
-use plotly::{contour::Contours, layout::themes::PLOTLY_WHITE, Layout, Plot, Trace};
+use plotly::{
+    common::{ColorScale, ColorScaleElement},
+    contour::Contours,
+    layout::themes::PLOTLY_WHITE,
+    Layout, Plot, Trace,
+};
 use pyo3::{exceptions::PyValueError, prelude::*};
 
 #[pyclass(name = "RustPlotter2D", subclass)]
@@ -366,14 +371,16 @@ impl PyPlotter2D {
         Ok(())
     }
 
-    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None))]
+    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None, colour_map = None))]
     fn _parity_map_from_vector_grid(
         &mut self,
         comparison_grid: &PyVecGrid,
         axis: usize,
         selection: &str,
         index: Option<usize>,
+        colour_map: Option<&str>,
     ) -> PyResult<()> {
+        let cmap = self.get_gradient(colour_map);
         let ref_grid = self
             .grid
             .as_any()
@@ -404,7 +411,10 @@ impl PyPlotter2D {
         let mut traces: Vec<Box<dyn Trace>> = Vec::new();
         let parity_traces = parity_plotter.create_parity_map();
         for trace in parity_traces {
-            traces.push(trace)
+            traces.push(match cmap {
+                Some(gradient) => trace.color_scale(get_colour_scale(gradient)),
+                None => trace,
+            })
         }
         let layout: Layout = Layout::new();
         let plot: Plot = plot(traces, layout);
@@ -414,14 +424,16 @@ impl PyPlotter2D {
         Ok(())
     }
 
-    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None))]
+    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None, colour_map = None))]
     fn _parity_map_from_grid(
         &mut self,
         comparison_grid: &PyGrid,
         axis: usize,
         selection: &str,
         index: Option<usize>,
+        colour_map: Option<&str>,
     ) -> PyResult<()> {
+        let cmap = self.get_gradient(colour_map);
         let ref_grid = self.grid.clone();
         let comp_grid = comparison_grid.grid.clone();
         let parity_plotter = if selection == "depth_average" {
@@ -442,7 +454,10 @@ impl PyPlotter2D {
         let mut traces: Vec<Box<dyn Trace>> = Vec::new();
         let parity_traces = parity_plotter.create_parity_map();
         for trace in parity_traces {
-            traces.push(trace)
+            traces.push(match cmap {
+                Some(gradient) => trace.color_scale(get_colour_scale(gradient)),
+                None => trace,
+            })
         }
         let layout: Layout = Layout::new();
         let plot: Plot = plot(traces, layout);
@@ -452,14 +467,16 @@ impl PyPlotter2D {
         Ok(())
     }
 
-    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None))]
+    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None, colour_map = None))]
     fn _parity_contour_from_vector_grid(
         &mut self,
         comparison_grid: &PyVecGrid,
         axis: usize,
         selection: &str,
         index: Option<usize>,
+        colour_map: Option<&str>,
     ) -> PyResult<()> {
+        let cmap = self.get_gradient(colour_map);
         let ref_grid = self
             .grid
             .as_any()
@@ -490,7 +507,10 @@ impl PyPlotter2D {
         let mut traces: Vec<Box<dyn Trace>> = Vec::new();
         let parity_traces = parity_plotter.create_parity_contour();
         for trace in parity_traces {
-            traces.push(trace)
+            traces.push(match cmap {
+                Some(gradient) => trace.color_scale(get_colour_scale(gradient)),
+                None => trace,
+            })
         }
         let layout: Layout = Layout::new();
         let plot: Plot = plot(traces, layout);
@@ -500,14 +520,16 @@ impl PyPlotter2D {
         Ok(())
     }
 
-    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None))]
+    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None, colour_map = None))]
     fn _parity_contour_from_grid(
         &mut self,
         comparison_grid: &PyGrid,
         axis: usize,
         selection: &str,
         index: Option<usize>,
+        colour_map: Option<&str>,
     ) -> PyResult<()> {
+        let cmap = self.get_gradient(colour_map);
         let ref_grid = self.grid.clone();
         let comp_grid = comparison_grid.grid.clone();
         let parity_plotter = if selection == "depth_average" {
@@ -528,7 +550,10 @@ impl PyPlotter2D {
         let mut traces: Vec<Box<dyn Trace>> = Vec::new();
         let heatmap_traces = parity_plotter.create_parity_contour();
         for trace in heatmap_traces {
-            traces.push(trace)
+            traces.push(match cmap {
+                Some(gradient) => trace.color_scale(get_colour_scale(gradient)),
+                None => trace,
+            })
         }
         let layout: Layout = Layout::new();
         let plot: Plot = plot(traces, layout);
@@ -588,3 +613,16 @@ impl PyPlotter2D {
         }
     }
 }
+
+/// Colour scale that plotly uses to represent a gradient.
+fn get_colour_scale(gradient: Gradient) -> ColorScale {
+    let n = 10;
+    ColorScale::Vector(
+        (0..=n)
+            .map(|i| {
+                let frac = (i as f64) / (n as f64);
+                ColorScaleElement(frac, format!("#{:x}", gradient.eval_continuous(frac)))
+            })
+            .collect(),
+    )
+}
diff --git a/up4/plotting.py b/up4/plotting.py
index 917731d..83f0f66 100644
--- a/up4/plotting.py
+++ b/up4/plotting.py
@@ -760,13 +760,16 @@ class Plotter2D:
             axis,
             selection,
             index,
+            colour_map=colour_map,
         )
         if self._grid_type == "vector_grid":
             self._plotter._parity_map_from_vector_grid(
-                comparison_grid, axis, selection, index
+                comparison_grid, axis, selection, index, colour_map
             )
         else:
-            self._plotter._parity_map_from_grid(comparison_grid, axis, selection, index)
+            self._plotter._parity_map_from_grid(
+                comparison_grid, axis, selection, index, colour_map
+            )
         parity_map = self._create_plot(style=style, layout=layout)
 
         return parity_map
@@ -873,14 +876,15 @@ class Plotter2D:
             axis,
             selection,
             index,
+            colour_map=colour_map,
         )
         if self._grid_type == "vector_grid":
             self._plotter._parity_contour_from_vector_grid(
-                comparison_grid, axis, selection, index
+                comparison_grid, axis, selection, index, colour_map
             )
         else:
             self._plotter._parity_contour_from_grid(
-                comparison_grid, axis, selection, index
+                comparison_grid, axis, selection, index, colour_map
             )
         parity_contour = self._create_plot(style=style, layout=layout)
 
-- 
2.43.0


From 0af86d9ec0a436b66185e5778cd12ebae11b42db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:35 +0000
Subject: [PATCH 53/62] fix: number of timesteps in a slice of a dataset

---
 src/pylib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pylib.rs b/src/pylib.rs
index 03afd11..244eebd 100644
--- a/src/pylib.rs
+++ b/src/pylib.rs
@@ -897,12 +897,13 @@ impl PyData {
                 "Could not get indices"
             );
             let start = indices.start;
-            let stop = indices.stop;
             let step = indices.step;
+            let length = indices.slicelength as usize;
             let mut result = ndarray::Array3::<f64>::zeros(
-                [((stop - start) / step) as usize, *self.data.global_stats().nparticles(), 7]
+                [length, *self.data.global_stats().nparticles(), 7]
             );
-            for (i, index) in (start..stop).step_by(step as usize).enumerate() {
+            for i in 0..length {
+                let index = start + i as isize * step;
                 let timestep = self.data.get_timestep(index as usize);
                 // make it an array
                 let position = timestep.position().to_owned();
-- 
2.43.0


From 492ab2f6d7621249f083b7f71b9c6cd24e69f684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 54/62] fix: grids with limits below zero

---
 up4/grid.py | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/up4/grid.py b/up4/grid.py
index 29bd6f8..201c605 100644
--- a/up4/grid.py
+++ b/up4/grid.py
@@ -150,11 +150,7 @@ class Grid(RustGrid):
 
             # data is given and cell size is given
             elif data is not None and limits is not None:
-                # BUG limits can be negative. nobody say they cant
-                if not any(i < 0 for i in limits):
-                    return self.cartesian3d(np.asarray(num_cells), np.asarray(limits))
-                else:
-                    raise ValueError("limits must be positive")
+                return self.cartesian3d(np.asarray(num_cells), np.asarray(limits))
             # data is given and at least one of xlim,ylim,zlim is not none
             elif data is not None and (
                 xlim is not None or ylim is not None or zlim is not None
@@ -176,12 +172,7 @@ class Grid(RustGrid):
                 )
             elif data is None:
                 if limits is not None:
-                    if not any(i < 0 for i in limits):
-                        return self.cartesian3d(
-                            np.asarray(num_cells), np.asarray(limits)
-                        )
-                    else:
-                        raise ValueError("limits must be positive")
+                    return self.cartesian3d(np.asarray(num_cells), np.asarray(limits))
                 elif xlim is not None and ylim is not None and zlim is not None:
                     dim = [xlim[0], xlim[1], ylim[0], ylim[1], zlim[0], zlim[1]]
                     return self.cartesian3d(np.asarray(num_cells), np.asarray(dim))
@@ -206,12 +197,9 @@ class Grid(RustGrid):
 
             # data is given and cell size is given
             elif data is not None and limits is not None:
-                if not any(i < 0 for i in limits):
-                    return self.cylindrical3d(
-                        np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
-                    )
-                else:
-                    raise ValueError("limits must be positive")
+                return self.cylindrical3d(
+                    np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
+                )
             # data is given and at least one of xlim,ylim,zlim is not none
             elif data is not None and (
                 xlim is not None or ylim is not None or zlim is not None
@@ -233,12 +221,9 @@ class Grid(RustGrid):
                 )
             elif data is None:
                 if limits is not None:
-                    if not any(i < 0 for i in limits):
-                        return self.cylindrical3d(
-                            np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
-                        )
-                    else:
-                        raise ValueError("limits must be positive")
+                    return self.cylindrical3d(
+                        np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
+                    )
                 elif xlim is not None and ylim is not None and zlim is not None:
                     dim = [xlim[0], xlim[1], ylim[0], ylim[1], zlim[0], zlim[1]]
                     return self.cylindrical3d(
-- 
2.43.0


From 7a0efa2b39aafb0efe9d9fb5cff2e1b45d4765fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 55/62] fix: cell size of grids with a dataset and limits

---
 up4/grid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/up4/grid.py b/up4/grid.py
index 201c605..76a925a 100644
--- a/up4/grid.py
+++ b/up4/grid.py
@@ -14,7 +14,12 @@ from upppp_rust import Data
 
 
 def calc_num_cells(cell_size, data, limits, xlim, ylim, zlim):
-    if data is not None:
+    if limits is not None:
+        num_cells = np.zeros(3)
+        for i in range(3):
+            num_cells[i] = int((limits[2 * i + 1] - limits[2 * i]) / cell_size[i])
+        return np.array(num_cells, dtype=np.int64)
+    elif data is not None:
         xmin, ymin, zmin = data.min_position()
         xmax, ymax, zmax = data.max_position()
         if xlim is not None:
@@ -31,11 +36,6 @@ def calc_num_cells(cell_size, data, limits, xlim, ylim, zlim):
         for i in range(3):
             num_cells[i] = int((dim[2 * i + 1] - dim[2 * i]) / cell_size[i])
         return num_cells
-    elif limits is not None:
-        num_cells = np.zeros(3)
-        for i in range(3):
-            num_cells[i] = int((limits[2 * i + 1] - limits[2 * i]) / cell_size[i])
-        return np.array(num_cells, dtype=np.int64)
 
     elif xlim is not None and ylim is not None and zlim is not None:
         num_cells = [
-- 
2.43.0


From 326d3eb938800c350d49dc55c4cca9624ba72f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:13 +0000
Subject: [PATCH 56/62] fix: leave out rows of chained csv files that repeat a
 time instead of storing zeros

---
 src/converter/csv_modes/csv_multi_chain.rs | 48 ++++++++++++++--------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 15a2859..a16d058 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -17,6 +17,35 @@ use crate::converter::convertertools;
 // Maximum amount of failiures in a row available for a process
 const MAX_FAILS: i64 = 500;
 
+// Leave out the rows in which a particle does not go forward in time
+fn forward_in_time(data: ndarray::Array2<f64>) -> ndarray::Array2<f64> {
+    let mut rows: Vec<usize> = Vec::with_capacity(data.shape()[0]);
+    let mut failcount = 0;
+    let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
+    for (line_id, line) in data.outer_iter().enumerate() {
+        let current_time = line[0];
+        if current_time <= old_time {
+            // The particle went back in time
+            // This is not possible and must be ignored.
+            failcount += 1;
+            if failcount > MAX_FAILS {
+                panic!(
+                    "Maximum amount of points that are behind the current \
+                 time reached. Please Check wether your data contains multiple\
+                 trajectories that are sorted in label.
+                 "
+                )
+            }
+            continue;
+        }
+        // resetfailcount. we only dont allow them do be in a row!
+        failcount = 0;
+        rows.push(line_id);
+        old_time = current_time;
+    }
+    data.select(ndarray::Axis(0), &rows)
+}
+
 #[allow(clippy::too_many_arguments)]
 pub fn csv_multi_chain(
     filename: &str,
@@ -152,7 +181,7 @@ pub fn csv_multi_chain(
             particle_data.push(temp_data);
         }
 
-        particle_data
+        particle_data.into_iter().map(forward_in_time).collect()
     };
     print_debug!("Constructing data arrays for attributes!");
 
@@ -195,7 +224,6 @@ pub fn csv_multi_chain(
         let particle_type_array = ndarray::Array1::<f64>::ones(data_length);
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
-        let mut failcount = 0;
         let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
@@ -209,23 +237,7 @@ pub fn csv_multi_chain(
         // Go through every line of the csv file
         for (line_id, line) in data.outer_iter().enumerate() {
             let current_time = line[0];
-            if current_time <= old_time {
-                // The particle went back in time
-                // This is not possible and must be ignored.
-                failcount += 1;
-                if failcount > MAX_FAILS {
-                    panic!(
-                        "Maximum amount of points that are behind the current \
-                 time reached. Please Check wether your data contains multiple\
-                 trajectories that are sorted in label.
-                 "
-                    )
-                }
-                continue;
-            }
             time_array[line_id] = current_time;
-            // resetfailcount. we only dont allow them do be in a row!
-            failcount = 0;
             let pos_x = line[1];
             let pos_y = line[2];
             let pos_z = line[3];
-- 
2.43.0


From 55168ebd70b3e686211b3ad483e22b6c4f423585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:13 +0000
Subject: [PATCH 57/62] fix: cut chained csv trajectories to the same number of
 timesteps so that the file can be read

---
 src/converter/csv_modes/csv_multi_chain.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index a16d058..4283a7f 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -46,6 +46,17 @@ fn forward_in_time(data: ndarray::Array2<f64>) -> ndarray::Array2<f64> {
     data.select(ndarray::Axis(0), &rows)
 }
 
+// All particles need the same number of timesteps, that of the shortest trajectory
+fn cut_to_same_length(particle_data: Vec<ndarray::Array2<f64>>) -> Vec<ndarray::Array2<f64>> {
+    let particle_data: Vec<ndarray::Array2<f64>> =
+        particle_data.into_iter().map(forward_in_time).collect();
+    let steps = particle_data.iter().map(|data| data.shape()[0]).min();
+    particle_data
+        .into_iter()
+        .map(|data| data.slice(ndarray::s![..steps.unwrap_or(0), ..]).to_owned())
+        .collect()
+}
+
 #[allow(clippy::too_many_arguments)]
 pub fn csv_multi_chain(
     filename: &str,
@@ -181,7 +192,7 @@ pub fn csv_multi_chain(
             particle_data.push(temp_data);
         }
 
-        particle_data.into_iter().map(forward_in_time).collect()
+        cut_to_same_length(particle_data)
     };
     print_debug!("Constructing data arrays for attributes!");
 
-- 
2.43.0


From b9eb5eb635a5e19ff0f0788ef2c753066268e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:06 +0000
Subject: [PATCH 58/62] fix: select particle ids in ranges and lists that begin
 with 0

---
 src/particleselector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particleselector.rs b/src/particleselector.rs
index 63a3543..0ca5f92 100644
--- a/src/particleselector.rs
+++ b/src/particleselector.rs
@@ -87,9 +87,9 @@ impl ParticleSelector {
         }
     }
     fn is_particleid_valid(&self, particleid: usize) -> bool {
-        // if first element is 0 one does not want to check this
-        // BUG Does not allow to choose particle id nr 0 as a particle.
-        if self.particleid[0] == 0 {
+        // if the only element is 0 one does not want to check this, particle id nr 0 can be chosen
+        // by the range from 0 to 0
+        if self.particleid == [0] {
             return true;
         }
         if self.particleid.len() == 1 {
-- 
2.43.0


From c2e7d98c26964916c7df2834fef73014595eb7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:48 +0000
Subject: [PATCH 59/62] fix: draw the values of maps in the order of their
 cells for arrays of any memory layout

---
 src/plotting/plotting_2d/parity_contour.rs | 2 +-
 src/plotting/plotting_2d/parity_map.rs     | 2 +-
 src/plotting/plotting_2d/scalar_map.rs     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plotting/plotting_2d/parity_contour.rs b/src/plotting/plotting_2d/parity_contour.rs
index c577313..6cabce2 100644
--- a/src/plotting/plotting_2d/parity_contour.rs
+++ b/src/plotting/plotting_2d/parity_contour.rs
@@ -206,7 +206,7 @@ impl ParityContour {
         let heatmap = HeatMap::new(
             self.x.to_owned().into_raw_vec(),
             self.y.to_owned().into_raw_vec(),
-            self.delta.to_owned().into_raw_vec(),
+            self.delta.iter().copied().collect(),
         );
         let traces = vec![heatmap];
 
diff --git a/src/plotting/plotting_2d/parity_map.rs b/src/plotting/plotting_2d/parity_map.rs
index 36ae3ad..758d93e 100644
--- a/src/plotting/plotting_2d/parity_map.rs
+++ b/src/plotting/plotting_2d/parity_map.rs
@@ -208,7 +208,7 @@ impl ParityMap {
         let heatmap = HeatMap::new(
             self.x.to_owned().into_raw_vec(),
             self.y.to_owned().into_raw_vec(),
-            self.delta.to_owned().into_raw_vec(),
+            self.delta.iter().copied().collect(),
         );
         let traces = vec![heatmap];
 
diff --git a/src/plotting/plotting_2d/scalar_map.rs b/src/plotting/plotting_2d/scalar_map.rs
index 5ee1612..a6cf7ae 100644
--- a/src/plotting/plotting_2d/scalar_map.rs
+++ b/src/plotting/plotting_2d/scalar_map.rs
@@ -119,7 +119,7 @@ impl ScalarMap {
         let heatmap = HeatMap::new(
             x.into_raw_vec(),
             y.into_raw_vec(),
-            self.data.to_owned().into_raw_vec(),
+            self.data.iter().copied().collect(),
         ).color_scale(ColorScale::Vector(cmap));
         let trace = vec![heatmap];
         trace
-- 
2.43.0


From 87f0bd387decbb1283aeeaa6ab31f79db7a22073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:45 +0000
Subject: [PATCH 60/62] fix: velocities of chained csv trajectories of 200000
 rows and more

---
 src/converter/csv_modes/csv_multi_chain.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 4283a7f..f4cd584 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -180,13 +180,8 @@ pub fn csv_multi_chain(
                         time, x, y, z -position "
                     )
                 }
-                if temp_data.column(0).len() < 200000 {
-                    temp_data = convertertools::velocity_polynom(temp_data, 9, 2);
-                } else {
-                    temp_data = convertertools::velocity_paralell::velocity_polynom_parallel(
-                        temp_data, 9, 2,
-                    );
-                }
+                // the parallel version does not use the sampling steps it is given
+                temp_data = convertertools::velocity_polynom(temp_data, 9, 2);
             }
 
             particle_data.push(temp_data);
-- 
2.43.0


From 9cf0b561214b5a20eee489d545ea971e4cc60e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:38 +0000
Subject: [PATCH 61/62] fix: collapsing ignores infinite values of cells
 without weight

---
 src/grid/cartesian_grid.rs   | 8 +++++++-
 src/grid/cylindrical_grid.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 5e6a96a..ed8ca73 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -339,7 +339,13 @@ impl GridFunctions3D for CartesianGrid3D {
 
         for (data_arr, weight) in self.data.axis_iter(axis).zip(self.weight.axis_iter(axis)) {
             // check for nans
-            let data_arr = data_arr.mapv(|x| if x.is_nan() { 0. } else { x });
+            let mut data_arr = data_arr.mapv(|x| if x.is_nan() { 0. } else { x });
+            // cells without weight can hold infinite values
+            data_arr.zip_mut_with(&weight, |x, w| {
+                if *w == 0. {
+                    *x = 0.;
+                }
+            });
             result = result + &data_arr * &weight;
             result_weight += &weight;
         }
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index b3a5e59..0a57a53 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -291,7 +291,13 @@ impl GridFunctions3D for CylindricalGrid3D {
 
         for (data_arr, weight) in self.data.axis_iter(axis).zip(self.weight.axis_iter(axis)) {
             // check for nans
-            let data_arr = data_arr.mapv(|x| if x.is_nan() { 0. } else { x });
+            let mut data_arr = data_arr.mapv(|x| if x.is_nan() { 0. } else { x });
+            // cells without weight can hold infinite values
+            data_arr.zip_mut_with(&weight, |x, w| {
+                if *w == 0. {
+                    *x = 0.;
+                }
+            });
             let weight = weight.mapv(|x| if x.is_nan() { 0. } else { x });
             result = result + &data_arr * &weight;
             result_weight += &weight;
-- 
2.43.0


From 3d105b57ac67464f4440f3d3f7a8db1504b6d658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:45 +0000
Subject: [PATCH 62/62] fix: refuse vtk fields with another number of values
 than the particles need

---
 src/converter.rs                | 15 ++++++++++++---
 src/converter/convertertools.rs | 24 +++++++++++++-----------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index d143e67..acee8b9 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -672,7 +672,7 @@ impl XMLVTKConverter {
                 panic!("No ID field specified");
             };
             let sort_list = make_sortlist(&particle_ids);
-            let particle_ids = sort_by_array(particle_ids, &sort_list);
+            let particle_ids = sort_by_array(particle_ids, &sort_list, 1);
             let max_particle = *particle_ids.iter().max().unwrap();
             if max_particle > nparticles {
                 nparticles = max_particle
@@ -687,6 +687,7 @@ impl XMLVTKConverter {
                 sort_by_array(
                     xmltools::get_field::<f64>(filename, radius_field, &self.file_type),
                     &sort_list,
+                    1,
                 )
             } else if let Some(ref diameter_field) = self.diameter_field_name {
                 sort_by_array(
@@ -695,6 +696,7 @@ impl XMLVTKConverter {
                         .map(|x| x * 0.5)
                         .collect::<Vec<f64>>(),
                     &sort_list,
+                    1,
                 )
             } else {
                 panic!("No radius or diameter field specified");
@@ -720,6 +722,7 @@ impl XMLVTKConverter {
                 sort_by_array(
                     xmltools::get_field::<u64>(filename, type_field, &self.file_type),
                     &sort_list,
+                    1,
                 )
             } else {
                 print_warning!("No type field specified, defaulting to 1");
@@ -740,6 +743,7 @@ impl XMLVTKConverter {
                 sort_by_array(
                     xmltools::get_field::<f64>(filename, velocity_field, &self.file_type),
                     &sort_list,
+                    3,
                 )
             } else {
                 panic!("No velocity field specified");
@@ -778,6 +782,7 @@ impl XMLVTKConverter {
             let particle_positions = sort_by_array(
                 xmltools::get_positions::<f64>(filename, &self.file_type),
                 &sort_list,
+                3,
             );
             let particle_positions =
                 Array::from_shape_vec((particle_positions.len() / 3, 3), particle_positions)
@@ -1101,7 +1106,7 @@ impl LegacyVTKConverter {
                 panic!("No ID field specified");
             };
             let sort_list = make_sortlist(&particle_ids);
-            let particle_ids = sort_by_array(particle_ids, &sort_list);
+            let particle_ids = sort_by_array(particle_ids, &sort_list, 1);
             let max_particle = *particle_ids.iter().max().unwrap();
             if max_particle > nparticles {
                 nparticles = max_particle
@@ -1116,6 +1121,7 @@ impl LegacyVTKConverter {
                 sort_by_array(
                     legacytools::get_field::<f64>(filename, radius_field),
                     &sort_list,
+                    1,
                 )
             } else if let Some(ref diameter_field) = self.diameter_field_name {
                 sort_by_array(
@@ -1124,6 +1130,7 @@ impl LegacyVTKConverter {
                         .map(|x| x * 0.5)
                         .collect::<Vec<f64>>(),
                     &sort_list,
+                    1,
                 )
             } else {
                 panic!("No radius or diameter field specified");
@@ -1149,6 +1156,7 @@ impl LegacyVTKConverter {
                 sort_by_array(
                     legacytools::get_field::<u64>(filename, type_field),
                     &sort_list,
+                    1,
                 )
             } else {
                 print_warning!("No type field specified, defaulting to 1");
@@ -1169,6 +1177,7 @@ impl LegacyVTKConverter {
                 sort_by_array(
                     legacytools::get_field::<f64>(filename, velocity_field),
                     &sort_list,
+                    3,
                 )
             } else {
                 panic!("No velocity field specified");
@@ -1205,7 +1214,7 @@ impl LegacyVTKConverter {
                 });
             print_debug!("  Creating position dataset");
             let particle_positions =
-                sort_by_array(legacytools::get_positions::<f64>(filename), &sort_list);
+                sort_by_array(legacytools::get_positions::<f64>(filename), &sort_list, 3);
             let particle_positions =
                 Array::from_shape_vec((particle_positions.len() / 3, 3), particle_positions)
                     .unwrap();
diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index 6882b22..3cbfdc8 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -190,23 +190,25 @@ fn interpolate_step(
     pos_old + ((pos_new - pos_old) / (time_new - time_old)) * (time_current - time_old)
 }
 
-// ndarray sorting by elements in another array
-pub fn sort_by_array<T>(data: Vec<T>, idx: &[usize]) -> Vec<T>
+// ndarray sorting by elements in another array, with a number of values for each of them
+pub fn sort_by_array<T>(data: Vec<T>, idx: &[usize], values: usize) -> Vec<T>
 where
     T: std::cmp::PartialOrd + Clone + Copy,
 {
     print_debug!("      Sorting data");
 
+    if data.len() != values * idx.len() {
+        panic!(
+            "Found {} values where {} particles need {} each",
+            data.len(),
+            idx.len(),
+            values
+        );
+    }
     let mut array_sorted = Vec::new();
-    if data.len() == idx.len() {
-        for i in 0..idx.len() {
-            array_sorted.push(data[idx[i]]);
-        }
-    } else {
-        for i in 0..idx.len() {
-            array_sorted.push(data[3 * idx[i]]);
-            array_sorted.push(data[3 * idx[i] + 1]);
-            array_sorted.push(data[3 * idx[i] + 2]);
+    for i in 0..idx.len() {
+        for j in 0..values {
+            array_sorted.push(data[values * idx[i] + j]);
         }
     }
 
-- 
2.43.0

