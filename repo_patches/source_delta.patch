From 41fda6f5a1b3dada21bff4e82a2f66c4b440b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:15 +0000
Subject: [PATCH 01/33] fix: slow-capture traps lose released electrons when
 the cloud is below the notch

When the charge (including what has just been released) does not reach any
traps, the electrons already removed from the watermarks were not returned to
the pixel.
---
 src/trap_managers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index a3a3362..cc5b380 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1304,7 +1304,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
     // Capture and release electrons below the cloud
     // ========
     // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
+    if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
     if (n_released > 0.0) {
@@ -2062,7 +2062,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
     // Capture and release electrons below the cloud
     // ========
     // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
+    if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
     if (n_released > 0.0) {
-- 
2.43.0


From ab7e315754c87a5b64fae046fb491332701bbcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:15 +0000
Subject: [PATCH 02/33] fix: clear the watermarks removed by pruning

The vacated entries kept their old volumes and fills, which the next cloud that
reached above all watermarks read as if they were still there.
---
 src/trap_managers.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index cc5b380..7a6a710 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -448,6 +448,15 @@ void TrapManagerBase::prune_watermarks(double min_n_electrons) {
     }
     n_active_watermarks -= n_watermarks_pruned;
 
+    // Clear the entries that are no longer active, since watermarks above the
+    // active ones are expected to be empty
+    for (int i_wmk = i_first_active_wmk + n_active_watermarks;
+         i_wmk < i_first_active_wmk + n_active_watermarks + n_watermarks_pruned;
+         i_wmk++) {
+        watermark_volumes[i_wmk] = zeroth_watermark;
+        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] = empty_watermark;
+    }
+
     // Count the total number of electrons in each watermark
     print_v(3,"\n\n Fill fractions after prune (first %d n %d)\n",i_first_active_wmk, n_active_watermarks);
     
-- 
2.43.0


From 6dd6450e0a665778082e1ffb813ca76b08c80562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:15 +0000
Subject: [PATCH 03/33] fix: partial capture below all watermarks used
 superseded fill fractions

If there was room below the first active watermark, the new lowest watermark was
filled part-way from the stale entry there instead of from the watermark it
splits, so electrons were created or lost.
---
 src/trap_managers.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 7a6a710..a713ec6 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -825,6 +825,12 @@ void TrapManagerInstantCapture::update_watermarks_capture_not_enough(
         if (i_first_active_wmk > 0) {
             // Use existing room below the current first active watermark
             i_first_active_wmk--;
+
+            // Start from the fills of the watermark that is being split, not
+            // from the superseded values that were left here
+            watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+                (std::valarray<double>)watermark_fills[std::slice(
+                    (i_first_active_wmk + 1) * n_traps, n_traps, 1)];
         } else {
             // Copy-paste all higher watermarks up one to make room
             for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
@@ -1680,6 +1686,12 @@ void TrapManagerInstantCaptureContinuum::update_watermarks_capture_not_enough(
         if (i_first_active_wmk > 0) {
             // Use existing room below the current first active watermark
             i_first_active_wmk--;
+
+            // Start from the fills of the watermark that is being split, not
+            // from the superseded values that were left here
+            watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
+                (std::valarray<double>)watermark_fills[std::slice(
+                    (i_first_active_wmk + 1) * n_traps, n_traps, 1)];
         } else {
             // Copy-paste all higher watermarks up one to make room
             for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
-- 
2.43.0


From c5ea5800c43110c58876a4bd5d80e1b537d99e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:15 +0000
Subject: [PATCH 04/33] fix: slow-capture traps left a negative volume above
 the active watermarks

When released electrons lift the cloud above all watermarks there is no partially
overwritten watermark to shrink; the entry beyond the active ones was given a
negative volume, which later corrupted the heights of new watermarks.
---
 src/trap_managers.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index a713ec6..bcf8932 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1348,9 +1348,11 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
             watermark_volumes[i_wmk_above_cloud] -
             (previous_total_volume - cloud_fractional_volume);
 
-        // Update fractional volume of the partially overwritten watermark
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
+        // Update fractional volume of the partially overwritten watermark, unless
+        // the new cloud height is above all previous watermarks
+        if (i_wmk_above_cloud < i_first_active_wmk + n_active_watermarks)
+            watermark_volumes[i_wmk_above_cloud] =
+                previous_total_volume - cloud_fractional_volume;
     }
 
     // Release and capture electrons in each watermark below the cloud
@@ -2112,9 +2114,11 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
             watermark_volumes[i_wmk_above_cloud] -
             (previous_total_volume - cloud_fractional_volume);
 
-        // Update fractional volume of the partially overwritten watermark
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
+        // Update fractional volume of the partially overwritten watermark, unless
+        // the new cloud height is above all previous watermarks
+        if (i_wmk_above_cloud < i_first_active_wmk + n_active_watermarks)
+            watermark_volumes[i_wmk_above_cloud] =
+                previous_total_volume - cloud_fractional_volume;
     }
 
     // Release and capture electrons in each watermark below the cloud
-- 
2.43.0


From 61d29c2081185431c51a498a07bd37cbe8f8a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 05/33] fix: 0/0 in instant capture when an empty pixel can
 capture nothing

With a non-zero first_electron_fill, a pixel without any charge whose traps are
all full (or have zero density) made the watermarks and the image NaN.
---
 src/trap_managers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index bcf8932..7b3a8c7 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1011,7 +1011,8 @@ double TrapManagerInstantCapture::n_electrons_captured(double n_free_electrons)
     // Would be really nice to do this including the express multiplier.
     // That would also prevent image pixels from changing sign when zeroth_watermark<0.
     //
-    double enough = abs(n_free_electrons / n_captured);
+    // (nothing to share out if there are no empty traps within the cloud)
+    double enough = (n_captured == 0.0) ? 1.0 : abs(n_free_electrons / n_captured);
     //print_v(0,"enough %g %g %g\n", enough, n_free_electrons, n_captured);
 
     // Normal full capture
@@ -1842,7 +1843,8 @@ double TrapManagerInstantCaptureContinuum::n_electrons_captured(
     // Update the watermarks
     // ========
     // Check enough available electrons to capture
-    double enough = n_free_electrons / n_captured;
+    // (nothing to share out if there are no empty traps within the cloud)
+    double enough = (n_captured == 0.0) ? 1.0 : n_free_electrons / n_captured;
 
     // Normal full capture
     if (enough >= 1.0) {
-- 
2.43.0


From f49ce042b6fa40cf1c92b8c5f3d1730df82dfaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 06/33] fix: zero-density continuum traps make the image NaN

The fill fraction was divided by the trap density, so a species with no traps
gave 0/0.
---
 src/trap_managers.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 7b3a8c7..801d826 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1522,6 +1522,9 @@ double TrapManagerInstantCaptureContinuum::n_electrons_released_from_wmk_above_c
     double time_initial;
     double fill_final;
     for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // No traps of this species, so nothing to release or capture
+        if (trap_densities[i_trap] == 0.0) continue;
+
         // Initial fill and conversion to elapsed time
         fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
         time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -1557,6 +1560,9 @@ double TrapManagerInstantCaptureContinuum::n_electrons_released() {
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps of this species, so nothing to release or capture
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -1951,6 +1957,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_from_wmk_above_clou
     double time_initial;
     double fill_final;
     for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // No traps of this species, so nothing to release or capture
+        if (trap_densities[i_trap] == 0.0) continue;
+
         // Initial fill and conversion to elapsed time
         fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
         time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -2057,6 +2066,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps of this species, so nothing to release or capture
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -2136,6 +2148,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps of this species, so nothing to release or capture
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -2179,6 +2194,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps of this species, so nothing to release or capture
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-- 
2.43.0


From e972be33fd245c7cc9b9a759d225e8f626b427d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 07/33] fix: 0/0 for non-uniform traps in an empty volume

A cloud that ends exactly at the height of a watermark (or a watermark with zero
volume) made the fraction of exposed traps NaN, and with it the image.
---
 src/traps.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/traps.cpp b/src/traps.cpp
index d045d18..ba4896a 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -117,6 +117,9 @@ double TrapInstantCapture::fraction_traps_exposed_per_fractional_volume(
         return 1.0;
     else if (fractional_volume_high <= fractional_volume_none_exposed)
         return 0.0;
+    // An empty volume contains no traps
+    else if (fractional_volume_high == fractional_volume_low)
+        return 0.0;
 
     double fraction;
     // Integrate f(v) from v_l to v_h
-- 
2.43.0


From b44a62eb2f4df1d3ab74de2e55bdf4b6164d900b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 08/33] fix: NaN for completely full slow-capture continuum
 traps

---
 include/traps.hpp | 1 +
 src/traps.cpp     | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/traps.hpp b/include/traps.hpp
index dbe1089..4b52fcf 100644
--- a/include/traps.hpp
+++ b/include/traps.hpp
@@ -103,6 +103,7 @@ class TrapSlowCaptureContinuum : public TrapInstantCapture {
     double fill_capture_min;
     double fill_capture_max;
     double fill_capture_long_time;
+    double fill_capture_zero_time;
 
     void prep_fill_fraction_after_slow_capture_tables(
         double dwell_time, double time_min, double time_max, int n_intp);
diff --git a/src/traps.cpp b/src/traps.cpp
index ba4896a..eb47c8e 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -911,6 +911,9 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
 
     fill_capture_long_time : double
         The should-be-converged fill fraction from a very long elapsed time.
+
+    fill_capture_zero_time : double
+        The fill fraction from completely full traps.
 */
 void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
     double dwell_time, double time_min, double time_max, int n_intp) {
@@ -929,6 +932,8 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
         fill_fraction_after_slow_capture(time_min, dwell_time, workspace);
     fill_capture_long_time =
         fill_fraction_after_slow_capture(time_max * 100, dwell_time, workspace);
+    fill_capture_zero_time =
+        fill_fraction_after_slow_capture(0.0, dwell_time, workspace);
     d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
     double time_i;
 
@@ -960,6 +965,9 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture_table(
     // Very long elapsed time, or unset watermark
     if (time_elapsed >= std::numeric_limits<double>::max())
         return fill_capture_long_time;
+    // Completely full
+    else if (time_elapsed == 0.0)
+        return fill_capture_zero_time;
     else if (time_elapsed == -1.0)
         return 0.0;
 
-- 
2.43.0


From 7930575f9ac64fb0faece83e193f5ede3ba57b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 09/33] fix: multiphase clocking reads and writes outside the
 image

---
 src/cti.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index 84931b4..55e47dd 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -362,6 +362,10 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             row_read = row_index +
                                        roe_step_phase->capture_from_which_pixels[i];
 
+                            // No charge beyond the edges of the image
+                            if (row_read >= n_rows) continue;
+
+
                             n_free_electrons += image[row_read][column_index];
                         }
 
@@ -412,6 +416,10 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             row_write =
                                 row_index + roe_step_phase->release_to_which_pixels[i];
 
+                            // Lose any charge that leaves the image
+                            if (row_write >= n_rows) continue;
+
+
                             image[row_write][column_index] +=
                                 n_electrons_released_and_captured * express_multiplier *
                                 roe_step_phase->release_fraction_to_pixels[i];
-- 
2.43.0


From ec6cd4a1872e4527823c562efcaa102ee4a08813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 10/33] fix: too few watermarks for repeated trap pumping

---
 src/cti.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index 55e47dd..5191f36 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -114,6 +114,10 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
         // need to be tracked if the traps are never reset
         max_n_transfers *= n_columns;
     }
+    if (roe->type == roe_type_trap_pumping) {
+        // Account for the repeated pumps of the same trap
+        max_n_transfers *= roe->n_express_passes;
+    }
 
     // Set empty arrays for nullptr trap lists
     std::valarray<TrapInstantCapture> no_traps_ic = {};
-- 
2.43.0


From 9ea57e44e46eb4ac5aa8f7e80643f86c80bc7b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 11/33] fix: columns that share their traps must not be clocked
 in parallel

---
 src/cti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index 5191f36..263a83a 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -317,7 +317,7 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
     //   Columns > Express passes > Rows > Clock-sequence steps > Pixel phases
     #pragma omp parallel for private(column_index, row_index, row_read, row_write, n_free_electrons, \
 				     n_electrons_released_and_captured, express_multiplier, roe_step_phase) \
-                             firstprivate(trap_manager_manager)
+                             firstprivate(trap_manager_manager) if(roe->empty_traps_between_columns)
     for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
         column_index = column_start + i_column;
 
-- 
2.43.0


From 758c9c58e076886d4c7522dc96a15a78967dd32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 12/33] fix: verbose output without instant-capture traps reads
 an empty array

---
 src/cti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index 263a83a..6b4d7cf 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -408,7 +408,7 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             2, "n_electrons_released_and_captured  %g \n",
                             n_electrons_released_and_captured);
 
-                        print_v(
+                        if (trap_manager_manager.n_traps_ic > 0) print_v(
                            2, "n_trapped_electrons_from_watermarks  %g \n",
                             trap_manager_manager.trap_managers_ic[i_phase].n_trapped_electrons_from_watermarks(trap_manager_manager.trap_managers_ic[i_phase].watermark_volumes,trap_manager_manager.trap_managers_ic[i_phase].watermark_fills));
 
-- 
2.43.0


From 0e5f92a4198dc48ff0fe397e594de6e5ab3ff9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:45 +0000
Subject: [PATCH 13/33] fix: elapsed time wrong when the microseconds wrap

---
 src/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index cd4881d..d2239f1 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -305,7 +305,7 @@ double gettimelapsed(struct timeval start, struct timeval end) {
 
     if (microseconds < 0.0) {
         seconds -= 1.0;
-        microseconds = 1e6 - microseconds;
+        microseconds = 1e6 + microseconds;
     }
 
     microseconds /= 1e6;
-- 
2.43.0


From 75ce159201c6f51c49859aa348e70e54600326e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:45 +0000
Subject: [PATCH 14/33] fix: readout electronics share and overwrite their
 dwell times

---
 include/roe.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/roe.hpp b/include/roe.hpp
index 3afc424..de7aa64 100644
--- a/include/roe.hpp
+++ b/include/roe.hpp
@@ -44,7 +44,7 @@ class ROE {
 
     ROE& operator=(const ROE& roe);
 
-    std::valarray<double>& dwell_times;
+    std::valarray<double> dwell_times;
     int prescan_offset;
     int overscan_start;
     bool empty_traps_between_columns;
-- 
2.43.0


From 46e1d88a88db612e66c627881a39925e9ba37b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 15/33] fix: assigning a trap-pumping readout does not copy the
 number of pumps

---
 src/roe.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/roe.cpp b/src/roe.cpp
index b9cc7bd..3ffc8fc 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -174,6 +174,7 @@ ROE& ROE::operator=(const ROE& roe) {
     type = roe.type;
     n_steps = roe.n_steps;
     n_phases = roe.n_phases;
+    n_pumps = roe.n_pumps;
     return *this;
 }
 
-- 
2.43.0


From 2ee78284a337be9acf5b483abf32b7da6568cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 16/33] fix: adding CTI with pixel bounce calls a method that
 does not exist

---
 python/arcticpy/cti.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arcticpy/cti.py b/python/arcticpy/cti.py
index 92c0488..3056a40 100644
--- a/python/arcticpy/cti.py
+++ b/python/arcticpy/cti.py
@@ -310,7 +310,7 @@ def add_cti(
         bias_total = np.zeros(image.shape)
         
         for pixel_bounce in pixel_bounce_list:
-            bias = pixel_bounce.bias_from(
+            bias = pixel_bounce.perturb_bias(
                 image_trailed,
                 parallel_window_start=parallel_window_start,
                 parallel_window_stop=parallel_window_stop,
-- 
2.43.0


From 9c5210b063943959f65b8868d4b87d90f17b443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 17/33] fix: natural frequency of the pixel bounce uses
 undefined names

---
 python/arcticpy/pixel_bounce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arcticpy/pixel_bounce.py b/python/arcticpy/pixel_bounce.py
index 78462ef..5ef2a9c 100644
--- a/python/arcticpy/pixel_bounce.py
+++ b/python/arcticpy/pixel_bounce.py
@@ -52,7 +52,7 @@ class PixelBounce:
 
     @property
     def omega0(self):
-        return np.sqrt(omega**2 + gamma**2)  # natural frequency of oscillator
+        return np.sqrt(self.omega**2 + self.gamma**2)  # natural frequency of oscillator
 
     def perturb_bias(
             self,
-- 
2.43.0


From a7445122e44c338a3050e2977aff093b2f63e39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 18/33] fix: converting a readout to charge injection uses
 undefined names

---
 python/arcticpy/roe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/arcticpy/roe.py b/python/arcticpy/roe.py
index 130ba6a..7b5a629 100644
--- a/python/arcticpy/roe.py
+++ b/python/arcticpy/roe.py
@@ -85,7 +85,7 @@ class ROEChargeInjection(ROE):
         return ROEChargeInjection(
             dwell_times=roe.dwell_times,
             prescan_offset=roe.prescan_offset + n_pixels_in_image,
-            prescan_length=prescan_length,
+            prescan_length=roe.prescan_length,
             overscan_start=roe.overscan_start,
             empty_traps_between_columns=roe.empty_traps_between_columns,
             force_release_away_from_readout=roe.force_release_away_from_readout,
@@ -94,7 +94,7 @@ class ROEChargeInjection(ROE):
             pixel_bounce_kv=roe.pixel_bounce_kv,
             pixel_bounce_omega=roe.pixel_bounce_omega,
             pixel_bounce_gamma=roe.pixel_bounce_gamma,
-            read_noise=read_noise
+            read_noise=roe.read_noise
         )
 
 
-- 
2.43.0


From 48fe8397789503719cd66957d116bbe026e37f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 19/33] fix: absolute ring covariance uses an undefined name

---
 python/arcticpy/read_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index 5a3596d..3b99fd6 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -1120,5 +1120,5 @@ class CovarianceMatrix(np.ndarray):
         middle = self.middle
         subarray = self[max(middle[0]-n,0):min(middle[0]+n,self.shape[0]),
                         max(middle[1]-n,0):min(middle[1]+n,self.shape[1])]
-        return npabs(subarray).sum() - self.autocorrelation
+        return np.abs(subarray).sum() - self.autocorrelation
 
-- 
2.43.0


From 0340fedd7e832caf8f5896b12efb9bc5b0da5d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 20/33] fix: row-by-row pixel bounce fails after the first row
 and overwrites its input

---
 python/arcticpy/pixel_bounce.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/arcticpy/pixel_bounce.py b/python/arcticpy/pixel_bounce.py
index 5ef2a9c..1ba2be9 100644
--- a/python/arcticpy/pixel_bounce.py
+++ b/python/arcticpy/pixel_bounce.py
@@ -236,7 +236,9 @@ class PixelBounce:
         # omega = np.sqrt(self.omegaO**2 - self.gamma**2)
         coeffA = 2 * np.exp(-1 * self.gamma * epsilon) * np.cos(self.omega * epsilon)
         coeffB = np.exp(-2 * self.gamma * epsilon)
-        biasm1 = 0.0
+
+        # Work on a copy (avoid overwriting input image)
+        image = np.copy(image).astype(np.double)
 
         # Read out one column of pixels through the (column of) traps
         n_rows_in_image, n_columns_in_image = image.shape
@@ -248,6 +250,7 @@ class PixelBounce:
             # Initialise bias offset voltage, which should settle during prescan
             # of each row
             bias = np.zeros((1, n_columns_in_image))
+            biasm1 = 0.0
 
             # Each pixel
             # for row_index in window_row_range:
@@ -255,7 +258,7 @@ class PixelBounce:
                 # Store previous values of bias, so difference equation can
                 # compute rates of change
                 biasm2 = copy.copy(biasm1)
-                biasm1 = bias[row_index, column_index - 1]
+                biasm1 = bias[0, column_index - 1]
 
                 # What electronic impulse is being experienced?
                 delta = (
-- 
2.43.0


From 5afcdad75f82107450c403bf7187cac52516151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 21/33] fix: read noise of images that are not C-contiguous in
 memory

---
 python/arcticpy/read_noise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index 3b99fd6..7c6066c 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -533,6 +533,9 @@ class ReadNoise:
         """
 
         # the following line returns the result from the C implementation instead (comment out to switch back to native python code)
+        # (which reads the pixels in C order, whatever the memory layout of the input arrays)
+        imageIn = np.ascontiguousarray(imageIn)
+        imageOut = np.ascontiguousarray(imageOut)
         return w.cy_determine_read_noise_model(imageIn, imageOut, self.sigmaRN, self.ampScale, self.smoothCol)
         
         readNoiseAmp = self.sigmaRN
-- 
2.43.0


From 4ecf1f17313c4409ef14eb2b1ac4410bd470310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 22/33] fix: ring of covariances misses the later rows and
 columns

---
 python/arcticpy/read_noise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index 7c6066c..c51ae62 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -1113,15 +1113,15 @@ class CovarianceMatrix(np.ndarray):
     def ring(self): # The sum of all covariance up to n pixels from autocorrelation
         n=1
         middle = self.middle
-        subarray = self[max(middle[0]-n,0):min(middle[0]+n,self.shape[0]),
-                        max(middle[1]-n,0):min(middle[1]+n,self.shape[1])]
+        subarray = self[max(middle[0]-n,0):min(middle[0]+n+1,self.shape[0]),
+                        max(middle[1]-n,0):min(middle[1]+n+1,self.shape[1])]
         return subarray.sum() - self.autocorrelation
     
     @property
     def ringabs(self): # The sum of all |covariance| up to n pixels from autocorrelation
         n=1
         middle = self.middle
-        subarray = self[max(middle[0]-n,0):min(middle[0]+n,self.shape[0]),
-                        max(middle[1]-n,0):min(middle[1]+n,self.shape[1])]
+        subarray = self[max(middle[0]-n,0):min(middle[0]+n+1,self.shape[0]),
+                        max(middle[1]-n,0):min(middle[1]+n+1,self.shape[1])]
         return np.abs(subarray).sum() - self.autocorrelation
 
-- 
2.43.0


From f80e05c78d25bb496cddbe037f5620061b309851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 23/33] fix: with an offset, later express passes started from
 the first pixel's captured charge

---
 src/roe.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/roe.cpp b/src/roe.cpp
index 3ffc8fc..e1e1956 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -397,6 +397,10 @@ void ROE::set_store_trap_states_matrix() {
     // Store on the pixel before where the next express pass will begin, so
     // that the trap states are appropriate for continuing in the next pass
     for (int express_index = 0; express_index < n_express_passes - 1; express_index++) {
+        // The next pass begins with the same (first) pixel as this one if there
+        // is an offset, so should begin with the same trap states
+        if (express_matrix[(express_index + 1) * n_transfers] > 0.0) continue;
+
         for (row_index = 0; row_index < n_transfers - 1; row_index++) {
             if (express_matrix[(express_index + 1) * n_transfers + row_index + 1] > 0.0)
                 break;
-- 
2.43.0


From 496b2b6cb7ed940792b074b238eeb21333a93b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 24/33] fix: express passes with empty first transfers read
 outside the multiplier matrix

---
 src/roe.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index e1e1956..18ce039 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -249,7 +249,8 @@ void ROE::set_express_matrix_from_rows_and_express(
 
     // Temporarily ignore the first pixel-to-pixel transfer, if it is to be
     // handled differently than the rest
-    if ((empty_traps_for_first_transfers) && (express < n_rows)) n_transfers--;
+    bool all_transfers = (express == n_transfers);
+    if ((empty_traps_for_first_transfers) && (!all_transfers)) n_transfers--;
 
     // Initialise an array with enough pixels to contain the supposed image,
     // including offset
@@ -281,7 +282,7 @@ void ROE::set_express_matrix_from_rows_and_express(
     // Add an extra (first) transfer for every pixel, the effect of which
     // will only ever be counted once, because it is physically different
     // from the other transfers (it sees only empty traps)
-    if ((empty_traps_for_first_transfers) && (express >= n_transfers)) {
+    if ((empty_traps_for_first_transfers) && (all_transfers)) {
         // Reverse order of operations, so that first transfer always sees empty traps
         std::valarray<double> express_matrix_full = tmp_express_matrix;
         for (int i = 0; i < express; i++) {
@@ -292,7 +293,7 @@ void ROE::set_express_matrix_from_rows_and_express(
         }
         n_express_passes = express;
         
-    } else if ((empty_traps_for_first_transfers) && (express < n_transfers)) {
+    } else if ((empty_traps_for_first_transfers) && (!all_transfers)) {
         // Create a new matrix for the full number of transfers
         // (this will eventually overwrite tmp_express_matrix, but that is first used)
         n_transfers++;
-- 
2.43.0


From 966a83b43ac84968a0f87172f310fdebde7d2887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:48 +0000
Subject: [PATCH 25/33] fix: an overscan starting before the window spoils the
 express matrix

---
 src/roe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index 18ce039..ef9c979 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -348,7 +348,7 @@ void ROE::set_express_matrix_from_rows_and_express(
     //std::cout << "overscan " << overscan_start << " f " << overscan_in_image << "\n";
     if (overscan_in_image > 0) {
         int n_express_rows = express_matrix.size() / n_rows;
-        for (int i_row = 0; (i_row < overscan_in_image); i_row++) {
+        for (int i_row = 0; (i_row < overscan_in_image) && (i_row < n_rows); i_row++) {
             double to_remove = overscan_in_image - i_row;
             double removed = 0;
             int i_express = 0;
-- 
2.43.0


From bf67d5d81189f3b1c348cfdade72d285d4db2a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 26/33] fix: trap pumping express multipliers lose pumps or
 read outside the column when no final pass is empty

For integer express passes with empty first transfers, the final entry was always
overwritten by zero, even where all of the express + 1 passes are needed, and
the non-zero entries were read past their end when there were fewer of them.
---
 src/roe.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index ef9c979..6a76cf8 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -893,17 +893,12 @@ void ROETrapPumping::set_express_matrix_from_rows_and_express(
         std::valarray<double> tmp_col_2 = tmp_col[tmp_col != 0.0];
 
         n_express_passes = express + 1;
-        tmp_col.resize(n_express_passes);
-        // Set the non-zero elements, which won't include the final entry for
-        // mismatched integer multipliers
-        if ((use_integer_express_matrix) && (n_pumps % express != 0)) {
-            // (Using slice here doesn't compile on mac for some odd reason...)
-            for (int i = 0; i < n_express_passes - 1; i++) tmp_col[i] = tmp_col_2[i];
-
-            // Put back the final zero
-            tmp_col[n_express_passes - 1] = 0.0;
-        } else
-            tmp_col = tmp_col_2;
+        tmp_col.resize(n_express_passes, 0.0);
+        // Set the non-zero elements, of which there may be fewer than passes for
+        // mismatched integer multipliers, leaving any remaining final entries zero
+        // (Using slice here doesn't compile on mac for some odd reason...)
+        int n_non_zero = std::min((int)tmp_col_2.size(), n_express_passes);
+        for (int i = 0; i < n_non_zero; i++) tmp_col[i] = tmp_col_2[i];
     }
 
     express_matrix.resize(n_rows * n_express_passes);
-- 
2.43.0


From 4c37639c8322c289e9a662f95d6d924f9200dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 27/33] fix: slow-capture traps with zero capture timescale do
 not recapture what they release

---
 src/trap_managers.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 801d826..b53a192 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1146,8 +1146,12 @@ void TrapManagerSlowCapture::set_fill_probabilities() {
                 traps[i_trap].capture_rate * exponential_factor;
 
         // Resulting fill fraction for filled traps (Eqn. 21)
-        fill_probabilities_from_full[i_trap] =
-            1.0 - traps[i_trap].release_rate * exponential_factor;
+        if (traps[i_trap].capture_rate == 0.0)
+            // Instantly recaptured
+            fill_probabilities_from_full[i_trap] = 1.0;
+        else
+            fill_probabilities_from_full[i_trap] =
+                1.0 - traps[i_trap].release_rate * exponential_factor;
 
         // Resulting empty fraction from only release
         empty_probabilities_from_release[i_trap] =
-- 
2.43.0


From d6b36f655a6a7ff71f5f3e2d358f677a7c57cd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 28/33] fix: slow-capture continuum traps with zero capture
 timescale capture nothing

---
 src/traps.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/traps.cpp b/src/traps.cpp
index eb47c8e..0b93ef6 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -838,6 +838,9 @@ double TrSCCo_ff_after_sc_integrand(double tau, void* params) {
     double exponential_factor = (1 - exp(-total_rate * p->dwell_time)) / total_rate;
     double fill_probability_from_empty = p->capture_rate * exponential_factor;
     double fill_probability_from_full = 1.0 - release_rate * exponential_factor;
+    // Instant capture
+    if (p->capture_rate == 0.0)
+        fill_probability_from_empty = fill_probability_from_full = 1.0;
 
     // Initial fill fraction
     double f_0;
-- 
2.43.0


From ea8513d8b32020f4985ec90e051ae31a5dfdc20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 29/33] fix: covariance matrices from images were transposed,
 and wrong if not square

---
 python/arcticpy/read_noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index c51ae62..f63950a 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -1058,7 +1058,7 @@ class CovarianceMatrix(np.ndarray):
 
         # Remove the outside edge of an image that could be rolled over in the next copy, 
         # so the two copies stay the same size
-        x = subimage[roll_border[0]:-roll_border[1], roll_border[0]:-roll_border[1]].flatten()
+        x = subimage[roll_border[0]:-roll_border[0], roll_border[1]:-roll_border[1]].flatten()
         xbar = np.mean(x)
 
         # Loop over all pixel offsets
@@ -1066,7 +1066,7 @@ class CovarianceMatrix(np.ndarray):
             for j in range(-middle[1], middle[1] + 1, 1):
 
                 # Shift the pixels in a second copy of the image
-                y = np.roll(subimage, (-j, -i), axis=(0, 1))[roll_border[0]:-roll_border[1], roll_border[0]:-roll_border[1]].flatten()
+                y = np.roll(subimage, (-i, -j), axis=(0, 1))[roll_border[0]:-roll_border[0], roll_border[1]:-roll_border[1]].flatten()
                 ybar = np.mean(y)
                 
                 # Calcluate covariance between shifted pixels
-- 
2.43.0


From a0b05aadbcdc754bb21a3052799a30f722af4dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 30/33] fix: Poisson realisations of surface traps lost their
 exposed volumes

---
 python/arcticpy/traps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/arcticpy/traps.py b/python/arcticpy/traps.py
index f5e2d75..5719fc6 100644
--- a/python/arcticpy/traps.py
+++ b/python/arcticpy/traps.py
@@ -61,7 +61,10 @@ class TrapInstantCapture(AbstractTrap):
         poisson_density_per_pixel = poisson_density_pixels / total_pixels
 
         return TrapInstantCapture(
-            density=poisson_density_per_pixel, release_timescale=self.release_timescale
+            density=poisson_density_per_pixel,
+            release_timescale=self.release_timescale,
+            fractional_volume_none_exposed=self.fractional_volume_none_exposed,
+            fractional_volume_full_exposed=self.fractional_volume_full_exposed,
         )
 
 
-- 
2.43.0


From 5199f86b41e294a5cde5727104d48d500eabbd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 31/33] fix: slow-capture traps captured nothing in a transfer
 that released nothing when rounding put a level above the cloud

---
 src/trap_managers.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index b53a192..9991bf5 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1231,6 +1231,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud above all current watermarks
@@ -1246,6 +1247,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud between or below current watermarks
@@ -1314,11 +1316,14 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
         n_released += frac_released_this_wmk * watermark_volumes[i_wmk];
     }
 
-    // Update the electron cloud
-    n_free_electrons += n_released;
-    cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-    i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    // Update the electron cloud (otherwise it still ends at the watermark added above,
+    // whose cumulative volume might differ from the cloud's by rounding)
+    if (n_released > 0.0) {
+        n_free_electrons += n_released;
+        cloud_fractional_volume =
+            ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+        i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    }
 
     // ========
     // Capture and release electrons below the cloud
@@ -2002,6 +2007,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud above all current watermarks
@@ -2017,6 +2023,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud between or below current watermarks
@@ -2093,11 +2100,14 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
         n_released += n_released_this_wmk * watermark_volumes[i_wmk];
     }
 
-    // Update the electron cloud
-    n_free_electrons += n_released;
-    cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-    i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    // Update the electron cloud (otherwise it still ends at the watermark added above,
+    // whose cumulative volume might differ from the cloud's by rounding)
+    if (n_released > 0.0) {
+        n_free_electrons += n_released;
+        cloud_fractional_volume =
+            ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+        i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    }
 
     // ========
     // Capture and release electrons below the cloud
-- 
2.43.0


From a6ed18e67bc5e693ee609e581d8499088965de9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 32/33] fix: integrals over distributions of lifetimes lost the
 long lifetimes

---
 src/traps.cpp | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index 0b93ef6..dfcef98 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -243,14 +243,16 @@ struct TrICCo_ff_from_te_params {
     double sigma;
 };
 
-double TrICCo_ff_from_te_integrand(double tau, void* params) {
+double TrICCo_ff_from_te_integrand(double z, void* params) {
     struct TrICCo_ff_from_te_params* p = (struct TrICCo_ff_from_te_params*)params;
 
+    // Release timescale z standard deviations from the (logarithmic) median
+    double tau = p->mu * exp(p->sigma * z);
+
     // Distribution density
-    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (tau * p->sigma * sqrt(2.0 * M_PI));
+    double n = exp(-z * z / 2.0) / sqrt(2.0 * M_PI);
 
-    // To integrate: n(tau) * fill_frac(tau) dtau
+    // To integrate: n(z) * fill_frac(tau) dz
     return n * exp(-p->time_elapsed / tau);
 }
 
@@ -266,8 +268,8 @@ double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
 
     // Prep the integration
     double result, error;
-    const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double min = -10.0;
+    const double max = 10.0;
     const double epsabs = 0.0;
     const double epsrel = 1e-6;
     const int limit = 100;
@@ -574,14 +576,16 @@ struct TrSCCo_ff_from_te_params {
     double sigma;
 };
 
-double TrSCCo_ff_from_te_integrand(double tau, void* params) {
+double TrSCCo_ff_from_te_integrand(double z, void* params) {
     struct TrSCCo_ff_from_te_params* p = (struct TrSCCo_ff_from_te_params*)params;
 
+    // Release timescale z standard deviations from the (logarithmic) median
+    double tau = p->mu * exp(p->sigma * z);
+
     // Distribution density
-    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (tau * p->sigma * sqrt(2.0 * M_PI));
+    double n = exp(-z * z / 2.0) / sqrt(2.0 * M_PI);
 
-    // To integrate: n(tau) * fill_frac(tau) dtau
+    // To integrate: n(z) * fill_frac(tau) dz
     return n * exp(-p->time_elapsed / tau);
 }
 
@@ -597,8 +601,8 @@ double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
 
     // Prep the integration
     double result, error;
-    const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double min = -10.0;
+    const double max = 10.0;
     const double epsabs = 0.0;
     const double epsrel = 1e-6;
     const int limit = 100;
@@ -825,12 +829,14 @@ struct TrSCCo_ff_after_sc_params {
     double dwell_time;
 };
 
-double TrSCCo_ff_after_sc_integrand(double tau, void* params) {
+double TrSCCo_ff_after_sc_integrand(double z, void* params) {
     struct TrSCCo_ff_after_sc_params* p = (struct TrSCCo_ff_after_sc_params*)params;
 
+    // Release timescale z standard deviations from the (logarithmic) median
+    double tau = p->mu * exp(p->sigma * z);
+
     // Distribution density
-    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (tau * p->sigma * sqrt(2.0 * M_PI));
+    double n = exp(-z * z / 2.0) / sqrt(2.0 * M_PI);
 
     // Rates and fill probabilities
     double release_rate = 1.0 / tau;
@@ -851,7 +857,7 @@ double TrSCCo_ff_after_sc_integrand(double tau, void* params) {
     else
         f_0 = exp(-p->time_elapsed * release_rate);
 
-    // To integrate: n(tau) * new_fill(tau) dtau
+    // To integrate: n(z) * new_fill(tau) dz
     return n * (f_0 * fill_probability_from_full +
                 (1.0 - f_0) * fill_probability_from_empty);
 }
@@ -860,8 +866,8 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
     double time_elapsed, double dwell_time, gsl_integration_workspace* workspace) {
     // Prep the integration
     double result, error;
-    const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double min = -10.0;
+    const double max = 10.0;
     const double epsabs = 0.0;
     const double epsrel = 1e-6;
     const int limit = 100;
-- 
2.43.0


From ba54e3a04b0a0000703796c95f56e603717a4411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 33/33] fix: table of long capture times of continuum traps
 treated never-filled traps as filled once

---
 src/traps.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index dfcef98..c74e35a 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -940,7 +940,8 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
     fill_capture_max =
         fill_fraction_after_slow_capture(time_min, dwell_time, workspace);
     fill_capture_long_time =
-        fill_fraction_after_slow_capture(time_max * 100, dwell_time, workspace);
+        fill_fraction_after_slow_capture(std::numeric_limits<double>::max(), dwell_time,
+                                         workspace);
     fill_capture_zero_time =
         fill_fraction_after_slow_capture(0.0, dwell_time, workspace);
     d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
-- 
2.43.0

