From f54ccce5378e9fe51255953eb8723b40af621181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:53 +0000
Subject: [PATCH 01/48] fix: push_back() works after any loop over the segments

The segment to write on was found from the loop counter current_segment, which a
previous loop over the out segments leaves anywhere.
---
 SegmentedArrayPair_Module.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index c31db72..3fb54b5 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -108,8 +108,7 @@ class SegmentedArrayPair_C(object):
         if self.first_available_offset[outSA] == self.segment_length:
             # If another segment is already available, use it. Otherwise, allocate a new
             # segment.
-            self.current_segment[outSA] += 1
-            if self.current_segment[outSA] < self.nseg[outSA]:
+            if self.first_not_full_segment[outSA] + 1 < self.nseg[outSA]:
                 #print("push_back: nseg=", self.nseg[outSA], "first_not_full_segment=", self.first_not_full_segment[outSA])
                 self.first_not_full_segment[outSA] += 1
                 #print("#1 self.first_not_full_segment[outSA]=", self.first_not_full_segment[outSA])
@@ -119,9 +118,11 @@ class SegmentedArrayPair_C(object):
                 # firstAvailableOffset[] = 0
                 # print("push_back: calling add_segment()")
                 self.add_segment(outSA)
-            # These two counters should be the same:                
-            assert (self.first_not_full_segment[outSA] == self.current_segment[outSA]), "first_not_full_segment = %d, current_segment = %d" % (self.first_not_full_segment[outSA], self.current_segment[outSA])
-                
+        # The item is written to the first_not_full_segment, so make that the current
+        # segment. (A previous loop over the segments may have left the counter on any
+        # segment).
+        self.current_segment[outSA] = self.first_not_full_segment[outSA]
+
 # Untested:
         if type(item_input) is np_m.ndarray:
             item = item_input[0]
-- 
2.43.0


From c96c483b50b58587edcc92e932f67e06da420dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:53 +0000
Subject: [PATCH 02/48] fix: set_number_of_items() accepts zero items

divmod(-1, segment_length) made the store look as if segment -1 were full, so that a
loop over the segments returned a full segment of stale items.
---
 SegmentedArrayPair_Module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index 3fb54b5..d8be4d0 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -486,6 +486,8 @@ class SegmentedArrayPair_C(object):
         # Compute the segment and offset of the last item. The
         # zero-based index of the last item is n_items-1
         (seg, offset) = divmod(n_items-1, self.segment_length)
+        # If there are no items, the first available slot is the first slot of the first segment
+        if n_items == 0: (seg, offset) = (0, -1)
         
         # print("set_number_of_itemsA: first_not_full_segment=", self.first_not_full_segment[theSA])
         self.first_not_full_segment[theSA] = seg
-- 
2.43.0


From 92c186682bdf5802203a97ac4b40f70e9bbbf552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:23 +0000
Subject: [PATCH 03/48] fix: C++ push_back() works after any loop over the
 segments

Same as the fix of the Python SegmentedArrayPair_C: the segment to write on was found
from the loop counter current_segment.
---
 cpp/SegmentedArrayPair.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index 5c1c28f..329d9fe 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -294,8 +294,7 @@ namespace dnt
           {
             // If another segment is already available, use
             // it. Otherwise, allocate a new segment.
-            current_segment[outSA] += 1;
-            if (current_segment[outSA] < nseg[outSA])
+            if (first_not_full_segment[outSA] + 1 < nseg[outSA])
               {
                 first_not_full_segment[outSA] += 1;
                 first_available_offset[outSA] = 0;
@@ -306,9 +305,10 @@ namespace dnt
                 // nseg[], and sets first_available_offset[] = 0
                 add_segment(outSA);
               };
-            // These two counters should be the same:                
-            assert(first_not_full_segment[outSA] == current_segment[outSA]);
           };
+        // The item is written to first_not_full_segment, so make that the current segment.
+        // (A previous loop over the segments may have left the counter on any segment.)
+        current_segment[outSA] = first_not_full_segment[outSA];
 
         // Use the buffer protocol to get to the contiguous data in the Numpy arrays
         // "out" SA
@@ -363,8 +363,7 @@ namespace dnt
           {
             // If another segment is already available, use
             // it. Otherwise, allocate a new segment.
-            current_segment[outSA] += 1;
-            if (current_segment[outSA] < nseg[outSA])
+            if (first_not_full_segment[outSA] + 1 < nseg[outSA])
               {
                 first_not_full_segment[outSA] += 1;
                 first_available_offset[outSA] = 0;
@@ -376,6 +375,9 @@ namespace dnt
                 add_segment(outSA);
               };
           };
+        // The item is written to first_not_full_segment, so make that the current segment.
+        // (A previous loop over the segments may have left the counter on any segment.)
+        current_segment[outSA] = first_not_full_segment[outSA];
         
         py::buffer_info segInfo = seg_list_pair[outSA][first_not_full_segment[outSA]].request(); // request() returns metadata about the array (ptr, ndim, size, shape)
         const auto pseg = static_cast<Pstruct<PT>*>(segInfo.ptr); // Pointer to a structured Numpy array
@@ -424,8 +426,7 @@ namespace dnt
           {
             // If another segment is already available, use
             // it. Otherwise, allocate a new segment.
-            current_segment[outSA] += 1;
-            if (current_segment[outSA] < nseg[outSA])
+            if (first_not_full_segment[outSA] + 1 < nseg[outSA])
               {
                 first_not_full_segment[outSA] += 1;
                 first_available_offset[outSA] = 0;
@@ -438,6 +439,9 @@ namespace dnt
               };
         
           };
+        // The item is written to first_not_full_segment, so make that the current segment.
+        // (A previous loop over the segments may have left the counter on any segment.)
+        current_segment[outSA] = first_not_full_segment[outSA];
         
         py::buffer_info segInfo = seg_list_pair[outSA][first_not_full_segment[outSA]].request(); // request() returns metadata about the array (ptr, ndim, size, shape)
         const auto pseg = static_cast<Pstruct<PT>*>(segInfo.ptr); // Pointer to a structured Numpy array
-- 
2.43.0


From 409b0fe5606686c4a6cdde4e449dd6811f36dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:23 +0000
Subject: [PATCH 04/48] fix: C++ set_number_of_items() accepts zero items for
 segment length 1

---
 cpp/SegmentedArrayPair.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index 329d9fe..0444b58 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -235,6 +235,13 @@ namespace dnt
         auto seg = (py::ssize_t) (n_items-1) / segment_length;
         auto offset = (n_items - 1) % segment_length;
 
+        // If there are no items, the first available slot is the first slot of the first segment
+        if (n_items == 0)
+          {
+            seg = 0;
+            offset = -1;
+          }
+
         first_not_full_segment[theSA] = seg;
         first_available_offset[theSA] = offset+1;
 
-- 
2.43.0


From 4ff7aafa72b43908fc4ebfcaa4046b624d3561f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:51 +0000
Subject: [PATCH 05/48] fix: C++ find_facet() returns NO_FACET when the end
 point is in the cell

In 1D the process exited. In 2D and 3D the facet-normal was read from index -1 of the
array of normals.
---
 cpp/dolfin_functions.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cpp/dolfin_functions.cpp b/cpp/dolfin_functions.cpp
index e6e7703..a6c600d 100644
--- a/cpp/dolfin_functions.cpp
+++ b/cpp/dolfin_functions.cpp
@@ -252,6 +252,12 @@ namespace dnt
             std::cout << "dolfin_functions.cpp::find_facet: !!! Bad value for dxFraction: " << dxFraction << std::endl;
             exit(EXIT_FAILURE);
           }
+
+        // If no facet was crossed, there's no facet-normal to return.
+        if (facet == NO_FACET)
+          {
+            return py::make_tuple(facet, dxFraction, nullptr);
+          }
         
         if (returnStdArray == true)
           {
@@ -359,6 +365,12 @@ namespace dnt
             std::cout << "dolfin_functions.cpp::find_facet: !!! Bad value for dxFraction: " << dxFraction << std::endl;
             exit(EXIT_FAILURE);
           }
+
+        // If no facet was crossed, there's no facet-normal to return.
+        if (facet == NO_FACET)
+          {
+            return py::make_tuple(facet, dxFraction, nullptr);
+          }
         if (returnStdArray == true)
           {
             return py::make_tuple(facet, dxFraction, &facetNormalVectors[facet*cellFNVdim]);
@@ -457,8 +469,8 @@ namespace dnt
               }
           }
 
-        std::cout << "dolfin_functions.cpp::find_facet() for gDim = 1: Should never get here!!!" << std::endl;
-        exit(EXIT_FAILURE);
+        // If no facet was crossed, there's no facet-normal to return.
+        return py::make_tuple(facet, dxFraction, nullptr);
                                      
       } // else if (gDim == 1)
 
-- 
2.43.0


From 73af491664b945cddc4e1d812ac6dd570576370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:51 +0000
Subject: [PATCH 06/48] fix: compute_cell_index() returns NO_CELL for a point
 outside the mesh

Dolfin returns the largest unsigned int for such a point, which was never equal to
NO_CELL (-1), so it was returned as if it were the index of a cell.
---
 Dolfin_Module.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 1dfcf4d..405a332 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -466,9 +466,9 @@ class Mesh_C(object):
         # The maximum value of a 32-bit int is 0xFFFFFFFF (-1)
         # (eight Fs and F = 1111)
 #        if first == 0xFFFFFFFF:
-        if first == Mesh_C.NO_CELL:
-            print(fncName, ": particle is out of bounds")
-            sys.exit()
+        # (Dolfin returns the maximum value of an unsigned int if there's no such cell)
+        if first >= self.mesh.num_cells():
+            return Mesh_C.NO_CELL
 
         return first
 #    def compute_cell_index(self, point):ENDDEF
-- 
2.43.0


From b1558f6d2a582ab40152a2e61c5830e890ae0747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:01 +0000
Subject: [PATCH 07/48] fix: interpolate_random_field_to_points() works for
 fields with several components

---
 Dolfin_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 405a332..909fbc9 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1196,7 +1196,8 @@ class Field_C(object):
             if np_m.linalg.norm(fieldValue) != 0.0:
                 randomVals[0] = np_m.random.normal(0.0, stdDeviation, numberOfValues)
                 fieldValue *= randomVals[0]
-            field_at_points[ip] = fieldValue
+            for d in range(len(fieldValue)):
+                field_at_points[ip][d] = fieldValue[d]
 #        print 'field_at_points = ', field_at_points[0:points.shape[0]]
         return
 #    def interpolate_random_field_to_points(self, points, field_at_points):ENDDEF
-- 
2.43.0


From bb6f0ab9e3d01b90d2602c7957c71c788b84821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:07 +0000
Subject: [PATCH 08/48] fix: advance_charged_species_in_uniform_fields() counts
 a full last segment once

---
 Particle_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index a00f317..13d5f05 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2282,7 +2282,8 @@ class Particle_C(object):
             (npSeg, psegIn) = sap.get_next_segment("in")
 
         # Set values that will be used to keep track of the particle arrays
-        particleCount += ipOut
+        if ipOut != self.SEGMENT_LENGTH: # A full last segment has already been counted
+            particleCount += ipOut
         sap.set_number_of_items("out", particleCount)
 
         return
-- 
2.43.0


From bf808b73d5e5fc7a281ebea3f7a0e9f713c3b2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:08 +0000
Subject: [PATCH 09/48] fix: advance_neutral_species() gives boundary functions
 the current move vector

---
 Particle_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 13d5f05..cbf839a 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2018,7 +2018,8 @@ class Particle_C(object):
                         coord0 = coord+'0'
                         pCoord2[i+pDim] = psegOut[ipOut][coord0] # Start of path in this cell
                         i+=1
-                    dx = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector
+                    # NB: dx[:] keeps dx pointing at self.dx, which the boundary functions use.
+                    dx[:] = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector
 
                     # could return the crossing-point in pCoord2[]
                     (cFacet, dxFraction, facetNormal) = pmesh_M.find_facet(pCoord2[pDim:2*pDim], dx, pCellIndex)
-- 
2.43.0


From d358aade6ae9d0dba0d743379daccd0a1073af99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:33 +0000
Subject: [PATCH 10/48] fix: C++ neutral mover in 2D passes the start of the
 path to find_facet()

The start coordinates were stored at indices 3,4, but read from index pDim=2.
---
 cpp/advance_neutral_species_cartesian_xy.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/advance_neutral_species_cartesian_xy.cpp b/cpp/advance_neutral_species_cartesian_xy.cpp
index e3d9376..eac778b 100644
--- a/cpp/advance_neutral_species_cartesian_xy.cpp
+++ b/cpp/advance_neutral_species_cartesian_xy.cpp
@@ -181,11 +181,11 @@
                 pCoord2[0] = psegOut[ipOut].x_;
                 pCoord2[1] = psegOut[ipOut].y_;
                 // Starting particle position in this cell
-                pCoord2[3] = psegOut[ipOut].x0_;
-                pCoord2[4] = psegOut[ipOut].y0_;
+                pCoord2[pDim] = psegOut[ipOut].x0_;
+                pCoord2[pDim+1] = psegOut[ipOut].y0_;
                 // The move vector in this cell
-                dx[0] = pCoord2[0] - pCoord2[3];
-                dx[1] = pCoord2[1] - pCoord2[4];
+                dx[0] = pCoord2[0] - pCoord2[pDim];
+                dx[1] = pCoord2[1] - pCoord2[pDim+1];
 
                 // bool returnStdArray = true;
                 bool returnStdArray = false;
-- 
2.43.0


From 9ef1ee83281c0c89f5c3e29d8b6404dcec92b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:36 +0000
Subject: [PATCH 11/48] fix: an unapplied solved field is zero in the E-field
 movers

With the solved field switched off for a species, adding an external field or recording a
boundary crossing of a trajectory particle used a field that was None.
---
 Particle_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index cbf839a..e727d14 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1106,7 +1106,7 @@ class Particle_C(object):
                         # operation on each component of E.)
                         for n in Eseg.dtype.names:
                             Eseg[n] *= -1.0
-                else:
+                if Eseg is None: # No solved field is applied to this species
                     self.negE[0:npSeg] = self.zeroE[0:npSeg]
                     Eseg = self.negE[0:npSeg] # A ref, not a copy.
                 if external_E_field is not None:
@@ -1505,7 +1505,7 @@ class Particle_C(object):
                     # operation on each component of E.)
                     for n in Eseg.dtype.names:
                         Eseg[n] *= -1.0
-            else:
+            if Eseg is None: # No solved field is applied to this species
                 self.negE[0:npSeg] = self.zeroE[0:npSeg]
                 Eseg = self.negE[0:npSeg] # A ref, not a copy.
 #                Eseg = self.zeroE[0:npSeg] # Is this the same as the 2 lines above?
-- 
2.43.0


From 99968f9eb9fc3fd91703eedbd741a2a0410a09a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:36 +0000
Subject: [PATCH 12/48] fix: the external field is evaluated only at the
 particles in a segment

The unused slots at the end of a segment hold arbitrary positions, possibly off the mesh.
---
 Particle_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index e727d14..2250f86 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1112,7 +1112,7 @@ class Particle_C(object):
                 if external_E_field is not None:
                     if ctrl.apply_random_external_electric_field is None or ctrl.apply_random_external_electric_field[sn] is True:
                         # Interpolate the external electric field to the particle positions
-                        external_E_field.interpolate_random_field_to_points(psegIn, self.Eext)
+                        external_E_field.interpolate_random_field_to_points(psegIn[0:npSeg], self.Eext)
                         Eext_seg = self.Eext[0:npSeg]
                         # The following is a vector operation on each component of E. This is the best
                         # you can do for a structured array. I'm not sure that you can add arrays
@@ -1512,7 +1512,7 @@ class Particle_C(object):
             if external_E_field is not None:
                 if ctrl.apply_random_external_electric_field is None or ctrl.apply_random_external_electric_field[sn] is True:
                     # Interpolate the external electric field to the particle positions
-                    external_E_field.interpolate_random_field_to_points(psegIn, self.Eext)
+                    external_E_field.interpolate_random_field_to_points(psegIn[0:npSeg], self.Eext)
                     Eext_seg = self.Eext[0:npSeg]
                     # The following is a vector operation on each component of E. This is the best
                     # you can do for a structured array. I'm not sure that you can add arrays
-- 
2.43.0


From c0abd88923ce1213618ebf5aeeaa08220730461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:36 +0000
Subject: [PATCH 13/48] fix: trajectories record zero external field for
 species it is not applied to

---
 Particle_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 2250f86..92c8844 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1509,6 +1509,7 @@ class Particle_C(object):
                 self.negE[0:npSeg] = self.zeroE[0:npSeg]
                 Eseg = self.negE[0:npSeg] # A ref, not a copy.
 #                Eseg = self.zeroE[0:npSeg] # Is this the same as the 2 lines above?
+            Eext_seg = None # This is for the case where no external field is applied to this species.
             if external_E_field is not None:
                 if ctrl.apply_random_external_electric_field is None or ctrl.apply_random_external_electric_field[sn] is True:
                     # Interpolate the external electric field to the particle positions
@@ -1754,7 +1755,7 @@ class Particle_C(object):
                                     E1Comps[0][i] = Eseg[ipIn][i]
 
                                 Eext1Comps = self.Eext1_comps # A convenience reference
-                                if external_E_field is None:
+                                if Eext_seg is None:
                                     Eext1Comps[0][:] = 0.0
                                 else:
                                     for i in range(len(self.Eext1.dtype.names)):
-- 
2.43.0


From 3703378a6b0a4c5fbd6fe0705076db298b7fd132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:36 +0000
Subject: [PATCH 14/48] fix: C++ E-field movers work when no solved field is
 applied

---
 Particle_Module.py                                      | 2 +-
 cpp/advance_charged_species_in_E_field_cartesian_x.cpp  | 2 +-
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp | 2 +-
 cpp/advance_charged_species_in_E_field_spherical_r.cpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 92c8844..7e77a8d 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1403,7 +1403,7 @@ class Particle_C(object):
             if self.use_cpp_integrators is True:
                 # Advance the particles in this species with C++
                 # Pull out the field data needed for interpolation to the particles
-                negEfieldFunction = neg_E_field.function.cpp_object() # Received as a dolfin::Function*
+                negEfieldFunction = None if neg_E_field is None else neg_E_field.function.cpp_object() # Received as a dolfin::Function*
                 self.integrators[sn](self, sn, ctrl, neg_E_field=negEfieldFunction, external_E_field=external_E_field, accel_only=accel_only)
             else:
                 # Advance the particles in this species with Python
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
index 4f95112..510806f 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
@@ -176,7 +176,7 @@
 
     //std::cout << "Hello from advance_charged_species_in_E_field_cartesian_x@2" << std::endl;
     
-    py::array_t<double>* EsegPtr = nullptr;
+    py::array_t<double>* EsegPtr = &zeroE;
     while (psegIn != nullptr) // Keep looping until we run out of "in" segments.
       {
         //std::cout << "Hello from advance_charged_species_in_E_field_cartesian_x@3" << std::endl;
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 7439943..385fb7b 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -145,7 +145,7 @@
 
     //std::cout << "Hello from advance_charged_species_in_E_field_cartesian_xy@2" << std::endl;
     
-    py::array_t<double>* EsegPtr = nullptr;
+    py::array_t<double>* EsegPtr = &zeroE;
     while (psegIn != nullptr) // Keep looping until we run out of "in" segments.
       {
 
diff --git a/cpp/advance_charged_species_in_E_field_spherical_r.cpp b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
index 98b4d91..30e62ee 100644
--- a/cpp/advance_charged_species_in_E_field_spherical_r.cpp
+++ b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
@@ -179,7 +179,7 @@
 
     // Loop over the particles in this species
     
-    py::array_t<double>* EsegPtr = nullptr;
+    py::array_t<double>* EsegPtr = &zeroE;
     while (psegIn != nullptr) // Keep looping until we run out of "in" segments.
       {
         //std::cout << "Hello from advance_charged_species_in_E_field_spherical_r@3" << std::endl;
-- 
2.43.0


From d6505ca24970234901fd4f3a02471a6a54b125a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:36 +0000
Subject: [PATCH 15/48] fix: C++ E-field movers leave the particles in place
 when accel_only is set

---
 ...charged_species_in_E_field_cartesian_x.cpp | 19 +++++++++++--------
 ...harged_species_in_E_field_cartesian_xy.cpp | 19 +++++++++++--------
 ...charged_species_in_E_field_spherical_r.cpp | 19 +++++++++++--------
 3 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
index 510806f..3e6b651 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
@@ -279,14 +279,17 @@
               }
 
             // Move the charged particle
-            // 1. Save the initial position
-            psegOut[ipOut].x0_ = psegOut[ipOut].x_;
-            //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
-            //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
-            // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
-            psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
-            //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
-            //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+            if (accel_only == false)
+              {
+                // 1. Save the initial position
+                psegOut[ipOut].x0_ = psegOut[ipOut].x_;
+                //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
+                //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
+                // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
+                psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
+                //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
+                //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 385fb7b..1ff3969 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -243,14 +243,17 @@
               }
 
             // Move the charged particle
-            // 1. Save the initial position
-            psegOut[ipOut].x0_ = psegOut[ipOut].x_;
-            psegOut[ipOut].y0_ = psegOut[ipOut].y_;
-            //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
-            // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
-            psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
-            psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
-            //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+            if (accel_only == false)
+              {
+                // 1. Save the initial position
+                psegOut[ipOut].x0_ = psegOut[ipOut].x_;
+                psegOut[ipOut].y0_ = psegOut[ipOut].y_;
+                //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
+                // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
+                psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
+                psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
+                //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
diff --git a/cpp/advance_charged_species_in_E_field_spherical_r.cpp b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
index 30e62ee..fad9613 100644
--- a/cpp/advance_charged_species_in_E_field_spherical_r.cpp
+++ b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
@@ -284,14 +284,17 @@
               }
 
             // Move the charged particle
-            // 1. Save the initial position
-            psegOut[ipOut].r0_ = psegOut[ipOut].r_;
-            //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
-            //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
-            // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
-            psegOut[ipOut].r_ += psegOut[ipOut].ur_*dt;
-            //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
-            //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+            if (accel_only == false)
+              {
+                // 1. Save the initial position
+                psegOut[ipOut].r0_ = psegOut[ipOut].r_;
+                //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
+                //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
+                // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
+                psegOut[ipOut].r_ += psegOut[ipOut].ur_*dt;
+                //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
+                //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
-- 
2.43.0


From 48e394cef02b0b2ad063cb9cf78dfe6998ea566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:36 +0000
Subject: [PATCH 16/48] fix: C++ 2D mover records both field components at a
 boundary crossing

---
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 1ff3969..4d2048a 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -368,13 +368,13 @@
                             auto EsegProxy = EsegPtr->mutable_unchecked<2>();
                             auto E_arrProxy = E1.mutable_unchecked<2>();
                             E_arrProxy(0, 0) = EsegProxy(ipIn, 0);
-                            // E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
+                            E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
                             // E_arrProxy(0, 2) = EsegProxy(ipIn, 2);
                             // External E
                             auto EextProxy = Eext.mutable_unchecked<2>();
                             auto Eext_arrProxy = Eext1.mutable_unchecked<2>();
                             Eext_arrProxy(0, 0) = EextProxy(ipIn, 0);
-                            // Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
+                            Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
                             // Eext_arrProxy(0, 2) = EextProxy(ipIn, 2);
                             //end
                             // Record the data for the trajectory
-- 
2.43.0


From a4259271cd0831a76fd36a72c7bdc575a3345239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:41 +0000
Subject: [PATCH 17/48] fix: move_particles_in_electrostatic_field() can record
 a boundary crossing of a trajectory particle

---
 Particle_Module.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 7e77a8d..d4b9ac5 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1109,6 +1109,7 @@ class Particle_C(object):
                 if Eseg is None: # No solved field is applied to this species
                     self.negE[0:npSeg] = self.zeroE[0:npSeg]
                     Eseg = self.negE[0:npSeg] # A ref, not a copy.
+                Eext_seg = None # This is for the case where no external field is applied to this species.
                 if external_E_field is not None:
                     if ctrl.apply_random_external_electric_field is None or ctrl.apply_random_external_electric_field[sn] is True:
                         # Interpolate the external electric field to the particle positions
@@ -1302,7 +1303,11 @@ class Particle_C(object):
 # Why is the None here for E? Because a particle may have gone out-of-bounds?  In that case, could compute E at initial coords instead of final coords.
 
 # Can I just send the interpolated E-field value?
-                                    self.record_trajectory_datum(sn, ipOut, fullIndex, step, tStart, neg_E_field=None, external_E_field=None, facet_crossing=True)
+                                    # Copy the fields used to advance this particle
+                                    for i in range(len(self.negE1.dtype.names)):
+                                        self.E1_comps[0][i] = Eseg[ipIn][i]
+                                        self.Eext1_comps[0][i] = 0.0 if Eext_seg is None else Eext_seg[ipIn][i]
+                                    self.record_trajectory_datum(sn, ipOut, fullIndex, step, tStart, E_field_comps=self.E1_comps, external_E_field_comps=self.Eext1_comps, facet_crossing=True)
                                 self.pmesh_bcs.bc_function_dict[facValue][sn](psegOut[ipOut], sn, mFacet, dx_fraction=dxFraction, facet_normal=facetNormal)
 
                             # Look up the cell index of the new cell.
-- 
2.43.0


From 8f4cc1714d37d4890d3f94026a542e99b116d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:45 +0000
Subject: [PATCH 18/48] fix: multiply_values() multiplies each DOF of a
 subdomain once

---
 Dolfin_Module.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 909fbc9..d78c814 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1018,24 +1018,14 @@ class Field_C(object):
             else:
                 self.function_values[:] *= multiplier
         else:
-            numberOfValues = subdomain.ncell
-
-# TODO: this isn't finished. For a CellSet, need to figure out how to apply a multiplier
-# to the DOFs, if DOFs can be associated with more than one cell (e.g., a vertex).  In
-# that case, you cannot loop on cells because the same DOFs will get multiplied more than
-# once. Use a Python "set" i.e. a set of unique objects.
+            # A DOF (e.g., a vertex value) can belong to more than one cell, so collect the
+            # DOFs of the subdomain in a set in order to multiply each one only once.
+            dofSet = set()
             for icell in range(subdomain.ncell):
                 cellIndex = subdomain.cell_index[icell]
-
-# !!! Doesn't this multiply vertices twice, since vertices are shared between cells?
-
-# It works if the DOFs are cell values (e.g., the E-field), and not vertex values (e.g., the density)
-
-# It'd be better to get a list of the DOFs and not loop over cells. Use a Python set().
-# 
-
-                dofIndices = self.function_space.dofmap().cell_dofs(cellIndex) # return type: numpy.ndarray
-                self.function_values[dofIndices] *= multiplier
+                dofSet.update(self.function_space.dofmap().cell_dofs(cellIndex))
+            dofIndices = np_m.array(sorted(dofSet), dtype=np_m.intc)
+            self.function_values[dofIndices] *= multiplier
             
         return
 #    def multiply_values(self, multiplier, gaussian=False, subdomain=None):
-- 
2.43.0


From c0613bd1f556672c8b74127320a4fb785998c1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:45 +0000
Subject: [PATCH 19/48] fix: multiply_values() applies the gaussian option on a
 subdomain

---
 Dolfin_Module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index d78c814..b6ac7b8 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1025,7 +1025,10 @@ class Field_C(object):
                 cellIndex = subdomain.cell_index[icell]
                 dofSet.update(self.function_space.dofmap().cell_dofs(cellIndex))
             dofIndices = np_m.array(sorted(dofSet), dtype=np_m.intc)
-            self.function_values[dofIndices] *= multiplier
+            if gaussian is True:
+                self.function_values[dofIndices] *= np_m.random.normal(0.0, multiplier, len(dofIndices))
+            else:
+                self.function_values[dofIndices] *= multiplier
             
         return
 #    def multiply_values(self, multiplier, gaussian=False, subdomain=None):
-- 
2.43.0


From 9748a9e1d0719bf7b002893141bebcd0b63d7d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:49 +0000
Subject: [PATCH 20/48] fix: set_gaussian_values() works on a subdomain with
 more cells than DOFs

---
 Dolfin_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index b6ac7b8..416eb77 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1056,8 +1056,8 @@ class Field_C(object):
         else:
             self.function_values[:] = 0.0 # Initialize all the elements to zero.
             numberOfValues = subdomain.ncell
-            randomVals = self.scratch_array # Alias to a numpy scratch array
-            randomVals[0:numberOfValues] = np_m.random.normal(0.0, standard_deviation, numberOfValues)
+            # There can be more cells than DOFs, so the scratch array may be too short for these values.
+            randomVals = np_m.random.normal(0.0, standard_deviation, numberOfValues)
 
 # Replace cell-loop with a loop over unique DoFs. It's OK as-is for the E-field, which is a cell quantity.
             
-- 
2.43.0


From ee36f0f0e581d406dea1c62ddd2fbd52b044e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:07 +0000
Subject: [PATCH 21/48] fix: record_trajectory_data() skips only the
 trajectories that are full

A full trajectory array made record_trajectory_data() return, so the other
trajectories lost their point and last_step was not updated; a full neutral
trajectory raised an IndexError.
---
 Particle_Module.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index d4b9ac5..d6a53c6 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2771,7 +2771,7 @@ class Particle_C(object):
                 if newpoint > traj_T.npoints - 1:
                     if printWarningArraySize is True:
                         print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
-                    return
+                    continue
                 
                 for comp in traj_T.charged_dict['names']:
 #                    print 'comp = ', comp
@@ -2808,6 +2808,11 @@ class Particle_C(object):
 
                 # Copy the particle values into the trajectory
                 newpoint = traj_T.trajectory_length[sp][i]
+                if newpoint > traj_T.npoints - 1:
+                    if printWarningArraySize is True:
+                        print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
+                    continue
+
                 for comp in traj_T.neutral_dict['names']:
                     if comp == 'step':
                         traj_T.data_list[sp][i][comp][newpoint] = step
-- 
2.43.0


From 82ea36ebce2dc79030149a5f51f11d0b67969058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:26 +0000
Subject: [PATCH 22/48] fix: get_species_number() and get_species_KE() count
 stored particles only

The last segment was summed in full, including unused slots, when the C++
storage is used.
---
 Particle_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index d6a53c6..fdfe0ec 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -737,7 +737,7 @@ class Particle_C(object):
         # Loop over the particle "out" segments
         (npSeg, pseg) = sap.init_out_loop()
         while isinstance(pseg, np_m.ndarray):
-            species_number += np_m.sum(pseg['weight'])
+            species_number += np_m.sum(pseg['weight'][0:npSeg])
             (npSeg, pseg) = sap.get_next_segment("out")
 
         if printSpeciesNumberFlag:
@@ -799,7 +799,7 @@ class Particle_C(object):
         while isinstance(pseg, np_m.ndarray):
             # Sum of 0.5*m*u^2 for particles in this segment
             for ucomp in self.velocity_coordinates:
-                species_KE += np_m.sum(pseg['weight']*pseg[ucomp]**2)
+                species_KE += np_m.sum(pseg['weight'][0:npSeg]*pseg[ucomp][0:npSeg]**2)
             
             (npSeg, pseg) = sap.get_next_segment("out")
 
-- 
2.43.0


From cc8a24422f0ce856ae931bba7539ef4f3041cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:26 +0000
Subject: [PATCH 23/48] fix: History_C accepts max_points

---
 RecordedData_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RecordedData_Module.py b/RecordedData_Module.py
index 02ce0c6..d52048c 100644
--- a/RecordedData_Module.py
+++ b/RecordedData_Module.py
@@ -124,7 +124,7 @@ class History_C(object):
         if histin.max_points is None:
             self.skip = 1
         else:
-            self.skip = int(ctrl.n_timesteps/max_points + 1)
+            self.skip = int(ctrl.n_timesteps/histin.max_points + 1)
 
         # Length of history-data arrays
         self.npoints = int(ctrl.n_timesteps/self.skip + 1)
-- 
2.43.0


From 7fba4faaa37f64e9a9b08aabb276677d1d549c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:26 +0000
Subject: [PATCH 24/48] fix: SphericalRegion_C.inside() works after
 construction

The radius of the region was overwritten by the array of cell radii.
---
 Dolfin_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 416eb77..6a9acd9 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1958,7 +1958,7 @@ class SphericalRegion_C(CellSet_C):
     def __init__(self, mesh_M, center, radius, plot_flag=False):
 
         self.center = center
-        self.radius = radius
+        self.region_radius = radius # self.radius holds the cell radii (see CellSet_C)
         plotFlag = plot_flag
 
         # Call the base class constructor
@@ -1982,7 +1982,7 @@ class SphericalRegion_C(CellSet_C):
         tol = 1.0e-10
 
         # The source is in the interval [xmin, xmax]
-        return x[0] >= self.center - self.radius - tol and x[0] <= self.center + self.radius + tol
+        return x[0] >= self.center - self.region_radius - tol and x[0] <= self.center + self.region_radius + tol
 #    def inside(self, x):ENDDEF
 
 #class SphericalRegion_C(CellSet_C):ENDCLASS
-- 
2.43.0


From ec1cffa4328260339320f5c48447e5d42eafe3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:26 +0000
Subject: [PATCH 25/48] fix: initialize_particles() passes the step to the
 creation function

---
 Particle_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index fdfe0ec..1b6a2fd 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -483,8 +483,9 @@ class Particle_C(object):
                 ipFunc = ipTuple[1]
                 ipRegion = ipTuple[2]
                 # Invoke the creation function
+                step = 0
                 time = 0.0
-                ipFunc(time, ipRegion, ipParams, neg_E_field)
+                ipFunc(step, time, ipRegion, ipParams, neg_E_field)
             else:
                 errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initial_distribution_type, s)
                 raise RuntimeError(errorMsg) # sys.exit(errorMsg)
-- 
2.43.0


From 59d3727fe3913e5ad087620711f157834bb684b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:26 +0000
Subject: [PATCH 26/48] fix: initialize_particles() reports an unknown
 initial_distribution_type

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 1b6a2fd..a3d3595 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -487,7 +487,7 @@ class Particle_C(object):
                 time = 0.0
                 ipFunc(step, time, ipRegion, ipParams, neg_E_field)
             else:
-                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initial_distribution_type, s)
+                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initialDistributionType, s)
                 raise RuntimeError(errorMsg) # sys.exit(errorMsg)
 
         # for sp in self.species_names:
-- 
2.43.0


From 944bed87c4ab3b3630d55ca7c7efc2064974077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:26 +0000
Subject: [PATCH 27/48] fix: the charge of a species declared neutral is
 ignored

The warning says so, but the species was advanced as a charged one.
---
 Particle_Module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index a3d3595..b9bd4e0 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -98,9 +98,10 @@ class ParticleSpecies_C(object):
         fncName = '('+__file__+') ' + self.__class__.__name__ + "." + sys._getframe().f_code.co_name + '():\n'
 
         # Value checking
-        if printWarningNonZeroCharge is True:
-            if dynamics == 'neutral' and charge != 0:
+        if dynamics == 'neutral' and charge != 0:
+            if printWarningNonZeroCharge is True:
                 print(fncName, "\tDnT WARNING: Species %s is neutral, but has a non-zero value of electric charge: %.3g. The charge will be ignored." % (name, charge))
+            charge = 0.0
 
         self.name = name
         self.charge = charge
-- 
2.43.0


From 606035034afb51b256c25330f062b0ba3b7ef8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:05 +0000
Subject: [PATCH 28/48] fix: assemble_source_expression() gives the Expression
 an element degree

DOLFIN 2018 and later require it: a density given as a string always failed.
---
 Dolfin_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 6a9acd9..5b8e035 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1596,7 +1596,7 @@ class PoissonSolve_C(object):
         if source_density is None:
             source_expression = df_m.Constant(0.0)
         elif isinstance(source_density, str):
-            source_expression = df_m.Expression(source_density)
+            source_expression = df_m.Expression(source_density, degree=self.V.ufl_element().degree())
         elif isinstance(source_density, float):
             source_expression = df_m.Constant(source_density)
         elif isinstance(source_density, int):
-- 
2.43.0


From 12857f212cf5676b39f820ad266e9bdac23e0b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:05 +0000
Subject: [PATCH 29/48] fix: compute_negE() stores the field in the Field_C's
 own function

Replacing the function left the alias function_values at the old values.
---
 Dolfin_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 5b8e035..1983680 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1728,7 +1728,7 @@ class PoissonSolve_C(object):
         negE = df_m.grad(self.u)
 
         function_space = self.neg_electric_field.function_space
-        self.neg_electric_field.function = df_m.project(negE, function_space)
+        df_m.project(negE, function_space, function=self.neg_electric_field.function)
         if plot_flag is True:
             df_m.plot(self.neg_electric_field.function, title=plot_title+": -E")
             mplot_m.show()
-- 
2.43.0


From 2c29db348fe4bfe2199b1993efafc632fb812ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:05 +0000
Subject: [PATCH 30/48] fix: a source density in spherical coordinates is
 integrated with r**2

The bilinear form of UserPoissonSolve1DS_C has the volume-element factor r**2,
but assemble_source_expression() left it out of the source term.
---
 Dolfin_Module.py                        | 6 +++++-
 UserMesh_y_Fields_Spherical1D_Module.py | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 1983680..be4ab7f 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1481,6 +1481,10 @@ class PoissonSolve_C(object):
         # A dolfin Argument
         self.w = df_m.TrialFunction(self.V)
 
+        # The volume-element factor used to integrate a source density over the
+        # domain. It's different from 1 in non-Cartesian coordinates.
+        self.volume_element = 1.0
+
         # A dolfin GenericVector, providing a uniform interface to back-end vectors
         self.b = df_m.Vector(phi_F.mesh_M.mesh.mpi_comm(), phi_F.function_len)
 
@@ -1612,7 +1616,7 @@ class PoissonSolve_C(object):
         # volume-element factor in the definition of L (the volume-element is
         # needed to integrate over the domain).
             
-        L = source_expression*self.v*df_m.dx
+        L = source_expression*self.v*self.volume_element*df_m.dx
 #        self.b = df_m.assemble(L)
         self.b[:] = df_m.assemble(L) # b is reused
 
diff --git a/UserMesh_y_Fields_Spherical1D_Module.py b/UserMesh_y_Fields_Spherical1D_Module.py
index ca577aa..c0188d6 100644
--- a/UserMesh_y_Fields_Spherical1D_Module.py
+++ b/UserMesh_y_Fields_Spherical1D_Module.py
@@ -459,7 +459,10 @@ class UserPoissonSolve1DS_C(PoissonSolve_C):
         epsilon = df_m.Constant(constants.epsilon_0)
         r = df_m.SpatialCoordinate(self.V.mesh())
 
-        self.a = epsilon*df_m.inner(df_m.nabla_grad(self.w), df_m.nabla_grad(self.v))*r[0]**2*df_m.dx
+        # The volume-element is also needed to integrate a source density
+        self.volume_element = r[0]**2
+
+        self.a = epsilon*df_m.inner(df_m.nabla_grad(self.w), df_m.nabla_grad(self.v))*self.volume_element*df_m.dx
 
         # Specify whether 'a(u,v)' has time-independent coefficients.  If so, the
         # matrix A only needs to be assembled once, avoiding redundant work.
-- 
2.43.0


From 9b93ec6d2b36f041b5f0bb6732159dc21782f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:05 +0000
Subject: [PATCH 31/48] fix: UserMesh_C marks the particle boundaries of 1D and
 3D meshes

The marker was created but no facet was ever marked, so the particle
boundary-conditions were not applied.
---
 UserMesh_y_Fields_FE_XYZ_Module.py | 31 ++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/UserMesh_y_Fields_FE_XYZ_Module.py b/UserMesh_y_Fields_FE_XYZ_Module.py
index 78a4911..b597a19 100644
--- a/UserMesh_y_Fields_FE_XYZ_Module.py
+++ b/UserMesh_y_Fields_FE_XYZ_Module.py
@@ -118,6 +118,25 @@ class YBoundary_C(df_m.SubDomain):
 
 #class YBoundary_C(df_m.SubDomain):ENDCLASS
 
+#STARTCLASS
+class ZBoundary_C(df_m.SubDomain):
+    """The ZBoundary_C class is a specialized SubDomain
+    """
+    # Set the Z value of the boundary in the constructor
+    def __init__(self, z_boundary_value, map_tol=1.0e-10):
+        self.z_boundary_value=z_boundary_value
+        # Pass the map_tol argument on to the base class
+        super(self.__class__, self).__init__(map_tol=1.0e-10)
+
+    # Return true for points inside the subdomain
+    def inside(self, x, on_boundary):
+        """x[0|1|2] contains the x, y, z coordinates of a point.
+        """
+        tol = 1.0e-10
+        return on_boundary and abs(x[2]-self.z_boundary_value) < tol
+
+#class ZBoundary_C(df_m.SubDomain):ENDCLASS
+
 #STARTCLASS
 class SourceXrange(df_m.SubDomain):
     """The SourceXrange class is a specialized SubDomain to used to
@@ -270,6 +289,10 @@ class UserMesh_C(Mesh_C):
                 particleBoundaryMarker = df_m.MeshFunction('size_t', mesh_df, mesh_df.topology().dim()-1)
                 # Initialize all mesh facets with a default value of 0.
                 particleBoundaryMarker.set_all(0)
+
+                # Mark the ends of the mesh with the user's non-zero integers
+                XBoundary_C(xmin).mark(particleBoundaryMarker, particleBoundaryDict['xmin'])
+                XBoundary_C(xmax).mark(particleBoundaryMarker, particleBoundaryDict['xmax'])
             else:
                 particleBoundaryMarker = None
             #   END:if particleBoundaryDict is not None:
@@ -387,6 +410,14 @@ class UserMesh_C(Mesh_C):
                 particleBoundaryMarker = df_m.MeshFunction('size_t', mesh_df, mesh_df.topology().dim()-1)
             # Initialize all mesh facets with a default value of 0.
                 particleBoundaryMarker.set_all(0)
+
+                # Mark the sides of the box with the user's non-zero integers
+                XBoundary_C(xmin).mark(particleBoundaryMarker, particleBoundaryDict['xmin'])
+                XBoundary_C(xmax).mark(particleBoundaryMarker, particleBoundaryDict['xmax'])
+                YBoundary_C(ymin).mark(particleBoundaryMarker, particleBoundaryDict['ymin'])
+                YBoundary_C(ymax).mark(particleBoundaryMarker, particleBoundaryDict['ymax'])
+                ZBoundary_C(zmin).mark(particleBoundaryMarker, particleBoundaryDict['zmin'])
+                ZBoundary_C(zmax).mark(particleBoundaryMarker, particleBoundaryDict['zmax'])
             else:
                 particleBoundaryMarker = None
 
-- 
2.43.0


From 51508eeefe5d4d05e13180ffbbd7295ea8762ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:05 +0000
Subject: [PATCH 32/48] fix: UserMesh1DS_C keeps the boundary markers it reads
 from files

MeshFunctionSizet does not exist in current DOLFIN, and the markers were not
stored in the object.
---
 UserMesh_y_Fields_Spherical1D_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UserMesh_y_Fields_Spherical1D_Module.py b/UserMesh_y_Fields_Spherical1D_Module.py
index c0188d6..0e25e17 100644
--- a/UserMesh_y_Fields_Spherical1D_Module.py
+++ b/UserMesh_y_Fields_Spherical1D_Module.py
@@ -187,9 +187,9 @@ class UserMesh1DS_C(Mesh_C):
         fieldBoundaryFile = mesh_input.field_boundary_file
         particleBoundaryFile = mesh_input.particle_boundary_file
         if fieldBoundaryFile is not None:
-            fieldBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, fieldBoundaryFile)
+            self.field_boundary_marker = df_m.MeshFunction("size_t", self.mesh, fieldBoundaryFile)
         if particleBoundaryFile is not None:
-            particleBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, particleBoundaryFile)
+            self.particle_boundary_marker = df_m.MeshFunction("size_t", self.mesh, particleBoundaryFile)
 # or:       particleBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, "Pbcs_quarter_circle_mesh_crossed.xml")
 
         return
-- 
2.43.0


From 354e5a76a1225c23cb1ab2debabaa54222bd934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:54 +0000
Subject: [PATCH 33/48] fix: a particle that ends on a facet to within
 round-off stays in its cell

---
 Particle_Module.py                            | 21 +++++++++++--------
 ...charged_species_in_E_field_cartesian_x.cpp |  8 +++----
 ...harged_species_in_E_field_cartesian_xy.cpp |  8 +++----
 ...charged_species_in_E_field_spherical_r.cpp |  8 +++----
 cpp/advance_neutral_species_cartesian_xy.cpp  |  8 +++----
 cpp/advance_neutral_species_cartesian_xyz.cpp |  8 +++----
 6 files changed, 32 insertions(+), 29 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index b9bd4e0..f72d606 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1328,9 +1328,10 @@ class Particle_C(object):
                             else:
                                 psegOut[ipOut]['cell_index'] = pCellIndexNew
                                 pCellIndex = pCellIndexNew # Needed for the next iteration of the while loop.
-                        else: # The crossed faced is NO_FACET, which shouldn't happen.
-                            errorMsg = "%s\t\"The cell index of the facet crossed is NO_FACET (%d). This should not happen since the particle has left its initial cell!\"" % (fncName, cFacet)
-                            raise RuntimeError(errorMsg) # sys.exit(errorMsg)
+                        else: # No facet-plane was crossed (NO_FACET), so the particle is in
+                              # this cell to within round-off, i.e., it ended on a facet.
+                            facetCrossCount -= 1 # There was no crossing to count.
+                            break # Breaks out of the facet-crossing 'while' loop.
 #                       END:if cFacet != Mesh_C.NO_FACET:
 #                   END:while not pmesh_M.is_inside_cell(psegOut[ipOut], pCellIndex)
 
@@ -1794,9 +1795,10 @@ class Particle_C(object):
                         else:
                             psegOut[ipOut]['cell_index'] = pCellIndexNew
                             pCellIndex = pCellIndexNew # Needed for the next iteration of the while loop.
-                    else: # The crossed faced is NO_FACET, which shouldn't happen.
-                        errorMsg = "%s\t\"The cell index of the facet crossed is NO_FACET (%d). This should not happen since the particle has left its initial cell!\"" % (fncName, cFacet)
-                        raise RuntimeError(errorMsg) # sys.exit(errorMsg)
+                    else: # No facet-plane was crossed (NO_FACET), so the particle is in
+                          # this cell to within round-off, i.e., it ended on a facet.
+                        facetCrossCount -= 1 # There was no crossing to count.
+                        break # Breaks out of the facet-crossing 'while' loop.
                     #                       END:if cFacet != Mesh_C.NO_FACET:
                     #                   END:while not pmesh_M.is_inside_cell(psegOut[ipOut], pCellIndex)
 
@@ -2090,9 +2092,10 @@ class Particle_C(object):
                             psegOut[ipOut]['cell_index'] = pCellIndexNew
                             pCellIndex = pCellIndexNew # Needed for the next iteration of the while loop.
 
-                    else: # The crossed faced is NO_FACET, which shouldn't happen.
-                        errorMsg = "%s\t\"The cell index of the facet crossed is %d. This should not happen since the particle has left its initial cell cell!\"" % (fncName, cFacet)
-                        raise RuntimeError(errorMsg) # sys.exit(errorMsg)
+                    else: # No facet-plane was crossed (NO_FACET), so the particle is in
+                          # this cell to within round-off, i.e., it ended on a facet.
+                        facetCrossCount -= 1 # There was no crossing to count.
+                        break # Breaks out of the facet-crossing 'while' loop.
                     # END:if cFacet != Mesh_C.NO_FACET:
                 # END:while not pmesh_M.is_inside_cell(psegOut[ipOut], pCellIndex)
 
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
index 3e6b651..9583bc5 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
@@ -453,11 +453,11 @@
                         pCellIndex = pCellIndexNew; // Needed for the next iteration of the while loop.
                       }
                   }
-                else // The crossed facet is NO_FACET, which shouldn't happen.
+                else // No facet-plane was crossed (NO_FACET), so the particle is in this cell to
+                     // within round-off, i.e., it ended on a facet.
                   {
-                    std::string errorMsg = "In advance_charged_species_in_E_field_cartesian_x(): The cell index of the facet crossed is NO_FACET (" + std::to_string(cFacet) + "). This should not happen since the particle has left its initial cell!";
-                    std::cout << errorMsg << std::endl;                    
-                    exit(EXIT_FAILURE);
+                    facetCrossCount -= 1; // There was no crossing to count.
+                    break; // Breaks out of the facet-crossing 'while' loop.
                   } // END: if (cFacet != NO_FACET)
 
                 // The following is needed in C++ because of is_inside_vertices() usage.
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 4d2048a..3216cb6 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -409,11 +409,11 @@
                         pCellIndex = pCellIndexNew; // Needed for the next iteration of the while loop.
                       }
                   }
-                else // The crossed facet is NO_FACET, which shouldn't happen.
+                else // No facet-plane was crossed (NO_FACET), so the particle is in this cell to
+                     // within round-off, i.e., it ended on a facet.
                   {
-                    std::string errorMsg = "In advance_charged_species_in_E_field_cartesian_xy(): The cell index of the facet crossed is NO_FACET (" + std::to_string(cFacet) + "). This should not happen since the particle has left its initial cell!";
-                    std::cout << errorMsg << std::endl;
-                    exit(EXIT_FAILURE);
+                    facetCrossCount -= 1; // There was no crossing to count.
+                    break; // Breaks out of the facet-crossing 'while' loop.
                   } // END: if (cFacet != NO_FACET)
 
                 // The following is needed in C++ because of is_inside_vertices() usage.
diff --git a/cpp/advance_charged_species_in_E_field_spherical_r.cpp b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
index fad9613..8ebf2fb 100644
--- a/cpp/advance_charged_species_in_E_field_spherical_r.cpp
+++ b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
@@ -458,11 +458,11 @@
                         pCellIndex = pCellIndexNew; // Needed for the next iteration of the while loop.
                       }
                   }
-                else // The crossed facet is NO_FACET, which shouldn't happen.
+                else // No facet-plane was crossed (NO_FACET), so the particle is in this cell to
+                     // within round-off, i.e., it ended on a facet.
                   {
-                    std::string errorMsg = "In advance_charged_species_in_E_field_spherical_r(): The cell index of the facet crossed is NO_FACET (" + std::to_string(cFacet) + "). This should not happen since the particle has left its initial cell!";
-                    std::cout << errorMsg << std::endl;                    
-                    exit(EXIT_FAILURE);
+                    facetCrossCount -= 1; // There was no crossing to count.
+                    break; // Breaks out of the facet-crossing 'while' loop.
                   } // END: if (cFacet != NO_FACET)
 
                 // The following is needed in C++ because of is_inside_vertices() usage.
diff --git a/cpp/advance_neutral_species_cartesian_xy.cpp b/cpp/advance_neutral_species_cartesian_xy.cpp
index eac778b..18e49f8 100644
--- a/cpp/advance_neutral_species_cartesian_xy.cpp
+++ b/cpp/advance_neutral_species_cartesian_xy.cpp
@@ -263,11 +263,11 @@
                         pCellIndex = pCellIndexNew; // Needed for the next iteration of the while loop.
                       }
                   }
-                else // The crossed facet is NO_FACET, which shouldn't happen.
+                else // No facet-plane was crossed (NO_FACET), so the particle is in this cell to
+                     // within round-off, i.e., it ended on a facet.
                   {
-                    std::string errorMsg = "In move_neutral_particle_species(): The cell index of the facet crossed is NO_FACET (" + std::to_string(cFacet) + "). This should not happen since the particle has left its initial cell!";
-                    std::cout << errorMsg << std::endl;
-                    exit(EXIT_FAILURE);
+                    facetCrossCount -= 1; // There was no crossing to count.
+                    break; // Breaks out of the facet-crossing 'while' loop.
                   } // END: if (cFacet != NO_FACET)
 
                 // The following is needed in C++ because of is_inside_vertices() usage.
diff --git a/cpp/advance_neutral_species_cartesian_xyz.cpp b/cpp/advance_neutral_species_cartesian_xyz.cpp
index 3d07fdc..ff67005 100644
--- a/cpp/advance_neutral_species_cartesian_xyz.cpp
+++ b/cpp/advance_neutral_species_cartesian_xyz.cpp
@@ -286,11 +286,11 @@
                         pCellIndex = pCellIndexNew; // Needed for the next iteration of the while loop.
                       }
                   }
-                else // The crossed facet is NO_FACET, which shouldn't happen.
+                else // No facet-plane was crossed (NO_FACET), so the particle is in this cell to
+                     // within round-off, i.e., it ended on a facet.
                   {
-                    std::string errorMsg = "In move_neutral_particle_species(): The cell index of the facet crossed is NO_FACET (" + std::to_string(cFacet) + "). This should not happen since the particle has left its initial cell!";
-                    std::cout << errorMsg << std::endl;                    
-                    exit(EXIT_FAILURE);
+                    facetCrossCount -= 1; // There was no crossing to count.
+                    break; // Breaks out of the facet-crossing 'while' loop.
                   } // END: if (cFacet != NO_FACET)
 
                 // The following is needed in C++ because of is_inside_vertices() usage.
-- 
2.43.0


From 6edae3d826ddd97c092a948fbf70d33a90cb0daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:33 +0000
Subject: [PATCH 34/48] fix: advance_neutral_species() can report its errors

---
 Particle_Module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index f72d606..8d81806 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1907,6 +1907,8 @@ class Particle_C(object):
 
         """
 
+        fncName = '('+__file__+') ' + self.__class__.__name__ + "." + sys._getframe().f_code.co_name + '():\n'
+
         printInfoBoundaryCrossing = False
         
         # Set local names for the passed parameters
-- 
2.43.0


From 43eb4dd548183fb9f4459f5c9443a52be1622a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:47 +0000
Subject: [PATCH 35/48] fix: the volume of a spherical cell does not depend on
 the order of its vertices

---
 Dolfin_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index be4ab7f..94afe23 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -521,7 +521,7 @@ class Mesh_C(object):
                 coords = cell.get_vertex_coordinates()
                 x0 = coords[0]
                 x1 = coords[1]
-                volume = (4.0/3.0)*np_m.pi*(x1*x1*x1 - x0*x0*x0)
+                volume = (4.0/3.0)*np_m.pi*abs(x1*x1*x1 - x0*x0*x0) # The vertices can be in either order
                 self.cell_volume_dict[ci] = volume
 #                print("cell", ci, "volume", volume)                
         else:
-- 
2.43.0


From 91af488298c75194bb49801b92c334d4bafed963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 36/48] fix: a particle on the mesh boundary to within
 round-off gets its field from its own cell

---
 Dolfin_Module.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 94afe23..a3048f1 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1093,6 +1093,36 @@ class Field_C(object):
         return
 #    def multiply_add(self, field_to_add, multiplier=None):ENDDEF
 
+#class Field_C(object):
+    def evaluate_at_point(self, point, p, values):
+        """Evaluate the field at one point.
+
+           A particle that ends a step on the boundary of the mesh can be outside the
+           mesh by a round-off error, so that Dolfin doesn't find a cell that contains
+           it. In that case the field is evaluated in the cell that the particle is in.
+
+           :param point: (input) A point (e.g., a particle).
+           :param p: (input) The list of coordinates of the point.
+           :param values: (output) The calculated field components.
+
+           :returns: None
+
+        """
+
+        try:
+            self.function(p, values=values)
+        except RuntimeError:
+            cellIndex = point['cell_index'] if 'cell_index' in (point.dtype.names or ()) else Mesh_C.NO_CELL
+            if cellIndex == Mesh_C.NO_CELL:
+                raise
+            cell = df_m.Cell(self.mesh_M.mesh, cellIndex)
+            if cell.distance(df_m.Point(np_m.array(p, dtype=np_m.float64))) > 1.0e-7*cell.h():
+                raise
+            self.function.cpp_object().eval(values, np_m.array(p, dtype=np_m.float64), cell)
+
+        return
+#    def evaluate_at_point(self, point, p, values):ENDDEF
+
 #class Field_C(object):
     def interpolate_field_to_points(self, points, field_at_points):
         """Interpolate the field in this Field_C object to the given points.
@@ -1132,7 +1162,7 @@ class Field_C(object):
 
             # Evaluate the finite-element function at the point p
 #            print(fncName, "\np=", p)
-            self.function(p, values=fieldValue)
+            self.evaluate_at_point(points[ip], p, fieldValue)
 #            field_at_points[ip] = fieldValue
 # 25aug18: Had to change to this to:
 #            for d in range(self.mesh_gdim):
@@ -1183,7 +1213,7 @@ class Field_C(object):
             p = [points[ip][d] for d in range(self.mesh_gdim)]
 
             # Evaluate the finite-element function at the point p
-            self.function(p, values=fieldValue)
+            self.evaluate_at_point(points[ip], p, fieldValue)
             # Don't go to the trouble of making a random number unless the field is
             # non-zero
             if np_m.linalg.norm(fieldValue) != 0.0:
-- 
2.43.0


From 20a6625a07accb4dec9183e88d6f523e87a2673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:29 +0000
Subject: [PATCH 37/48] fix: a snapshot file is closed when asked even if the
 step is already written

write_particles_to_file() returned before looking at close_flag when the
snapshot of the current step had been written already (as happens on leaving
the time loop), so the file stayed open and locked for other programs.
---
 Particle_Module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index 8d81806..9c630bc 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3190,6 +3190,8 @@ class Particle_C(object):
         step = ctrl.timeloop_count
         if step == self.h5_last_write_step:
             if printInfoSecondCall is True: print(fncName, "\t\"Second call on timestep %d: return without rewriting the data!\"" % step)
+            if close_flag is True:
+                self.particle_output_handle.close()
             return
 
         # Create a new group for this timestep
-- 
2.43.0


From a2d8d81766084b26020b655cd98b6f1624595e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:29 +0000
Subject: [PATCH 38/48] fix: a newly opened snapshot file gets the snapshot of
 the current step

The step of the last write was remembered from the previous file, so the
first write to a second file at the same step was skipped.
---
 Particle_Module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index 9c630bc..1f4f7a5 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3160,6 +3160,8 @@ class Particle_C(object):
             h5File.attrs[key] = self.charge[s]
 
         self.h5_step_counter = 0
+        # Nothing has been written to this file yet
+        self.h5_last_write_step = -1
 
         # Flush the buffer
         self.particle_output_handle.flush()
-- 
2.43.0


From 9288574b362102f6ad7b5656320227689cb4b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:29 +0000
Subject: [PATCH 39/48] fix: phase-space plots of trajectories are displayed

The figures were closed without having been shown.
---
 RecordedData_Module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RecordedData_Module.py b/RecordedData_Module.py
index d52048c..73cd601 100644
--- a/RecordedData_Module.py
+++ b/RecordedData_Module.py
@@ -520,6 +520,7 @@ class Trajectory_C(object):
                             mplot_m.ylabel('y')
                             mplot_m.grid(True)
                             # mplot_m.savefig(plot_title + ".png")
+                            mplot_m.show()
                             mplot_m.close(fig)
                             # mplot_m.show()
                         if 'ux' in comps:
@@ -530,6 +531,7 @@ class Trajectory_C(object):
                             mplot_m.ylabel('ux')
                             mplot_m.grid(True)
                             # mplot_m.savefig(plot_title + ".png")
+                            mplot_m.show()
                             mplot_m.close(fig)
                             # mplot_m.show()
                 
-- 
2.43.0


From 81e61f56fac7f4c6ddc1f6a4919815814bd00247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 40/48] fix: a Mesh_C object can be printed

__str__() called mesh functions that Mesh_C does not have.
---
 Dolfin_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index a3048f1..2bc3b65 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -179,8 +179,8 @@ class Mesh_C(object):
         fncName = '('+__file__+') ' + self.__class__.__name__ + "." + sys._getframe().f_code.co_name + '():'
         print(fncName)
 
-        print_string = ' mesh tdim = ' + str(self.geometry().dim())
-        print_string += '\nmesh gdim = ' + str(self.topology().dim())
+        print_string = ' mesh tdim = ' + str(self.tdim)
+        print_string += '\nmesh gdim = ' + str(self.gdim)
 
         return print_string
 #     def __str__(self):ENDDEF
-- 
2.43.0


From 867260977c321ab942be0e155720401c8f414941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 41/48] fix: a UserMesh1DS_C object can be printed

__str__() used attributes that the class does not have.
---
 UserMesh_y_Fields_Spherical1D_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UserMesh_y_Fields_Spherical1D_Module.py b/UserMesh_y_Fields_Spherical1D_Module.py
index 0e25e17..b4fca1d 100644
--- a/UserMesh_y_Fields_Spherical1D_Module.py
+++ b/UserMesh_y_Fields_Spherical1D_Module.py
@@ -203,8 +203,8 @@ class UserMesh1DS_C(Mesh_C):
         fncName = '('+__file__+') ' + self.__class__.__name__ + "." + sys._getframe().f_code.co_name + '():'
         print(fncName)
 
-        print_string = ' mesh_tdim = ' + str(self.mesh_tdim)
-        print_string += '\nmesh_gdim = ' + str(self.mesh_gdim)
+        print_string = ' mesh_tdim = ' + str(self.tdim)
+        print_string += '\nmesh_gdim = ' + str(self.gdim)
 
         return print_string
 #     def __str__(self):ENDDEF
-- 
2.43.0


From 85251eca676b92e9feb01b8409a999864d8069e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 42/48] fix: print_units() prints the conversion factors

It looked for them in an attribute U that does not exist.
---
 UserUnits_Module.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/UserUnits_Module.py b/UserUnits_Module.py
index d30bd02..e8d3690 100644
--- a/UserUnits_Module.py
+++ b/UserUnits_Module.py
@@ -70,9 +70,9 @@ class MyPlasmaUnits_C(object):
     @staticmethod
     def print_units():
         print("Conversion factors in ", MyPlasmaUnits_C.__name__, ":")
-        U = MyPlasmaUnits_C.U
-        for key in U:
-            print(key, " = ", U[key])
+        for key, value in vars(MyPlasmaUnits_C).items():
+            if isinstance(value, (int, float)):
+                print(key, " = ", value)
 
 #    def __init__(self):
 #        self.number_per_m3 = 1.0
-- 
2.43.0


From 6d1cc03cac40071819dc311b847b1e7c98473d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 43/48] fix: a DTcontrol_C object can be printed before all of
 it is set

__str__() prints the title, author and n_timesteps, which had no initial values.
---
 DT_Module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DT_Module.py b/DT_Module.py
index a1f36d0..4cb5193 100644
--- a/DT_Module.py
+++ b/DT_Module.py
@@ -82,6 +82,9 @@ class DTcontrol_C(object):
 
         # Run information
 
+        self.title = None
+        self.author = None
+        self.n_timesteps = None
         self.timeloop_count = None
         self.time = None
 
-- 
2.43.0


From bc5502adb3bda3748f43a5133215869383901665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 44/48] fix: the type of a field is compared by value

Field_C tested it with "is", which depends on whether the string is interned.
---
 Dolfin_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 2bc3b65..06743d4 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -918,9 +918,9 @@ class Field_C(object):
         self.mesh_gdim = mesh_M.mesh.geometry().dim()
         self.mesh_tdim = mesh_M.mesh.topology().dim()
 
-        if field_type is 'scalar':
+        if field_type == 'scalar':
             self.function_space = df_m.FunctionSpace(self.mesh_M.mesh, element_type, element_degree)
-        elif field_type is 'vector':
+        elif field_type == 'vector':
             self.function_space = df_m.VectorFunctionSpace(self.mesh_M.mesh, element_type, element_degree)
         self.field_type = field_type
 
-- 
2.43.0


From da8ee0b93f8ef663161431b786d8f8e1947c1905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:34 +0000
Subject: [PATCH 45/48] fix: the plot of a circular or radial mesh has the
 title it was given

create_mesh() only set the title when none was given, and failed otherwise.
---
 UserMesh_y_Fields_FE2D_Module.py        | 2 +-
 UserMesh_y_Fields_Spherical1D_Module.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/UserMesh_y_Fields_FE2D_Module.py b/UserMesh_y_Fields_FE2D_Module.py
index f7c54c5..8b45d42 100644
--- a/UserMesh_y_Fields_FE2D_Module.py
+++ b/UserMesh_y_Fields_FE2D_Module.py
@@ -344,7 +344,7 @@ class UserMesh2DCirc_C(Mesh_C):
         # boundaries
         if (plot_flag):
             fileName = os.path.basename(__file__)
-            if plot_title is None: plotTitle = fileName + ": RZ-mesh"
+            plotTitle = fileName + ": RZ-mesh" if plot_title is None else plot_title
 #            df_m.plot(mesh, title=plotTitle, axes=True)
             df_m.plot(mesh, title=plotTitle)
 #*** Warning: Matplotlib plotting backend does not support mesh function of dim 1. Continuing without plotting...            
diff --git a/UserMesh_y_Fields_Spherical1D_Module.py b/UserMesh_y_Fields_Spherical1D_Module.py
index b4fca1d..d681595 100644
--- a/UserMesh_y_Fields_Spherical1D_Module.py
+++ b/UserMesh_y_Fields_Spherical1D_Module.py
@@ -331,7 +331,7 @@ class UserMesh1DS_C(Mesh_C):
 
 # Make a plot of the mesh
         if (plot_flag):
-            if plot_title is None: plotTitle = "1D radial"
+            plotTitle = "1D radial" if plot_title is None else plot_title
             df_m.plot(mesh, title=plotTitle + " mesh")
             mplot_m.show()
 
-- 
2.43.0


From 341d96c2c3b8b05a778bdf2b821f2b53ee49f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:34 +0000
Subject: [PATCH 46/48] fix: a circular or radial mesh read from a file is
 plotted when asked

The plot flag and title were not passed to the Mesh_C constructor.
---
 UserMesh_y_Fields_FE2D_Module.py        | 2 +-
 UserMesh_y_Fields_Spherical1D_Module.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/UserMesh_y_Fields_FE2D_Module.py b/UserMesh_y_Fields_FE2D_Module.py
index 8b45d42..14332a0 100644
--- a/UserMesh_y_Fields_FE2D_Module.py
+++ b/UserMesh_y_Fields_FE2D_Module.py
@@ -170,7 +170,7 @@ class UserMesh2DCirc_C(Mesh_C):
 
         # Call the parent constructor to complete setting class variables.
         mesh_file = mesh_input.mesh_file
-        super(self.__class__, self).__init__(mesh_file=mesh_file, coordinate_system=coordinateSystem, compute_dictionaries=compute_dictionaries, compute_cpp_arrays=compute_cpp_arrays, compute_tree=compute_tree)
+        super(self.__class__, self).__init__(mesh_file=mesh_file, coordinate_system=coordinateSystem, compute_dictionaries=compute_dictionaries, compute_cpp_arrays=compute_cpp_arrays, compute_tree=compute_tree, plot_flag=plot_flag, plot_title=plot_title)
         
         self.field_boundary_dict = mesh_input.field_boundary_dict
         self.particle_boundary_dict = mesh_input.particle_boundary_dict
diff --git a/UserMesh_y_Fields_Spherical1D_Module.py b/UserMesh_y_Fields_Spherical1D_Module.py
index d681595..b13a6a2 100644
--- a/UserMesh_y_Fields_Spherical1D_Module.py
+++ b/UserMesh_y_Fields_Spherical1D_Module.py
@@ -177,7 +177,7 @@ class UserMesh1DS_C(Mesh_C):
         meshFile = mesh_input.mesh_file
         coordinateSystem = '1D-spherical-radial' # Mesh coordinates are spherical
                                                  # radial coordinates.
-        super(self.__class__, self).__init__(mesh_file=meshFile, coordinate_system=coordinateSystem, compute_dictionaries=computeDictionaries, compute_cpp_arrays=computeCppArrays, compute_tree=computeTree)
+        super(self.__class__, self).__init__(mesh_file=meshFile, coordinate_system=coordinateSystem, compute_dictionaries=computeDictionaries, compute_cpp_arrays=computeCppArrays, compute_tree=computeTree, plot_flag=plotFlag, plot_title=plotTitle)
 
 
         self.field_boundary_dict = mesh_input.field_boundary_dict
-- 
2.43.0


From 0574b5b0ec94fdee6820312c8fefc7e931d7949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:37 +0000
Subject: [PATCH 47/48] fix: reflect particles that have more coordinates than
 the mesh

---
 UserParticles_1D.py   | 9 ++++++---
 UserParticles_2D_e.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/UserParticles_1D.py b/UserParticles_1D.py
index 32825ea..452a759 100644
--- a/UserParticles_1D.py
+++ b/UserParticles_1D.py
@@ -273,18 +273,21 @@ class UserParticleBoundaryFunctions_C(object):
         # Compute the move-vector past the reflecting surface
         for i in range(pDim):
             dxOutside[i] = (1.0 - dx_fraction)*dx[i]
+        # The normal has as many components as the mesh has dimensions, which may be
+        # fewer than the particle has. It has no component along the other coordinates.
+        gDim = len(facet_normal)
         # Compute the component in the direction normal to the reflecting surface
-        n_dot_dxOutside = np_m.dot(facet_normal, dxOutside)
+        n_dot_dxOutside = np_m.dot(facet_normal, dxOutside[0:gDim])
 
         # Compute the component of velocity normal to the reflecting surface
         for i in range(pDim):
             u[i] = p[i+2*pDim]
-        n_dot_u = np_m.dot(facet_normal, u)
+        n_dot_u = np_m.dot(facet_normal, u[0:gDim])
 
         # Reflect the particle position in the surface to get its new final
         # position. Reflect the particle velocity too.
         i=0
-        for coord in self.position_coordinates:
+        for coord in self.position_coordinates[0:gDim]:
             p[coord] -= 2.0 * n_dot_dxOutside * facet_normal[i]
             ucomp = 'u'+coord
             p[ucomp] -= 2.0 * n_dot_u * facet_normal[i]
diff --git a/UserParticles_2D_e.py b/UserParticles_2D_e.py
index f378897..9af2ce6 100644
--- a/UserParticles_2D_e.py
+++ b/UserParticles_2D_e.py
@@ -364,18 +364,21 @@ class UserParticleBoundaryFunctions_C(object):
         # Compute the move-vector past the reflecting surface
         for i in range(pDim):
             dxOutside[i] = (1.0 - dx_fraction)*dx[i]
+        # The normal has as many components as the mesh has dimensions, which may be
+        # fewer than the particle has. It has no component along the other coordinates.
+        gDim = len(facet_normal)
         # Compute the component in the direction normal to the reflecting surface
-        n_dot_dxOutside = np_m.dot(facet_normal, dxOutside)
+        n_dot_dxOutside = np_m.dot(facet_normal, dxOutside[0:gDim])
 
         # Compute the component of velocity normal to the reflecting surface
         for i in range(pDim):
             u[i] = p[i+2*pDim]
-        n_dot_u = np_m.dot(facet_normal, u)
+        n_dot_u = np_m.dot(facet_normal, u[0:gDim])
 
         # Reflect the particle position in the surface to get its new final
         # position. Reflect the particle velocity too.
         i=0
-        for coord in self.position_coordinates:
+        for coord in self.position_coordinates[0:gDim]:
             p[coord] -= 2.0 * n_dot_dxOutside * facet_normal[i]
             ucomp = 'u'+coord
             p[ucomp] -= 2.0 * n_dot_u * facet_normal[i]
-- 
2.43.0


From 20c602c38d842b7f5605e048d59936d345966346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:47 +0000
Subject: [PATCH 48/48] fix: do not read past the end of a facet normal shorter
 than the position

---
 cpp/Pstruct.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cpp/Pstruct.h b/cpp/Pstruct.h
index 5d76a79..e2ad534 100644
--- a/cpp/Pstruct.h
+++ b/cpp/Pstruct.h
@@ -235,7 +235,11 @@ namespace dnt
        */
       inline void reflect_from_surface(py::array_t<double> &surface_normal, const double dx[])
       {
-        auto sn = surface_normal.unchecked<1>();
+        auto normal = surface_normal.unchecked<1>();
+
+        // The normal has as many components as the mesh has dimensions, which may be
+        // fewer than the particle has. The missing components are zero.
+        const double sn[2] = {normal[0], normal.shape(0) > 1 ? normal[1] : 0.0};
 
         auto n_dot_dx = sn[0]*dx[0] + sn[1]*dx[1];
         auto n_dot_u = sn[0]*ux_ + sn[1]*uy_;
@@ -376,7 +380,13 @@ namespace dnt
        */
       inline void reflect_from_surface(py::array_t<double> &surface_normal, const double dx[])
       {
-        auto sn = surface_normal.unchecked<1>();
+        auto normal = surface_normal.unchecked<1>();
+
+        // The normal has as many components as the mesh has dimensions, which may be
+        // fewer than the particle has. The missing components are zero.
+        const double sn[3] = {normal[0],
+                              normal.shape(0) > 1 ? normal[1] : 0.0,
+                              normal.shape(0) > 2 ? normal[2] : 0.0};
 
         auto n_dot_dx = sn[0]*dx[0] + sn[1]*dx[1] + sn[2]*dx[2];
         auto n_dot_u = sn[0]*ux_ + sn[1]*uy_ + sn[2]*uz_;
-- 
2.43.0

