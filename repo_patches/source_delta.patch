From a5cf7fa9c09e80976d2c3bc7d5771ff57baaced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 01/31] fix: allow building a Mirror without a micromirror
 (dmd) normal

---
 optics3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index 43a2a5f..b6e509b 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -153,7 +153,7 @@ class Mirror(Optic):
         self.thickness = thickness
         self.f = f
         self.type = type
-        self.dmd_normal = unit_vector(dmd_normal)
+        self.dmd_normal = unit_vector(dmd_normal) if dmd_normal is not None else None
         self.surfaces = []
         if shape == "circular_flat":
             self.normal = unit_vector(normal)
-- 
2.43.0


From 75d7fb1033bfecb10b7c339cac9c31d1189b84e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 02/31] fix: let the optic that is hit decide whether the ray
 comes from outside

Ray.run passed the flag of the last optic in the list.
---
 optics3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index b6e509b..117e3e6 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -851,6 +851,7 @@ class Ray:
                             intersected_optic = optic
                             intersection_pt = int_pt
                             intersection_normal = normal
+                            intersected_from_outside = shooting_from_outside
             if not intersected:
                 if self.print_trajectory:
                     print("not intersected (messages TODO)")
@@ -867,7 +868,7 @@ class Ray:
                     self.blocked = True
                 else:
                     # do it:
-                    intersected_optic.do_intersect(self, intersection_pt, intersection_normal, shooting_from_outside)
+                    intersected_optic.do_intersect(self, intersection_pt, intersection_normal, intersected_from_outside)
                     # we did it
         if self.print_trajectory:
             print("--- run complete ---")
-- 
2.43.0


From 1e2bec7e65945c7145a3aa3f4dc1319687e4ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 03/31] fix: do not report a tangent point behind the ray as an
 intersection

---
 Shapes/shapes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 4b82543..470f4af 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -230,7 +230,8 @@ class InfiniteCylinder(Shape):
                 intersection_count = 0
                 return False, None, None, None, None, intersection_count
         elif t0_objectSpace is not None:  # line intersects in one point, tangent
-            # TODO handle negative t0
+            if t0 <= INTERSECT_CLIPPING_FLOOR:  # touching point is behind the ray
+                return False, None, None, None, None, 0
             intersection_count = 2 # ugh, I'm counting this case as two cause you're probably outside, give me a break
             return True, pt0, None, normal0, None, intersection_count
         else:  # (discriminant < 0) line intersects in no points
@@ -345,8 +346,9 @@ class Sphere(Shape):
                 intersection_count = 0
                 return False, None, None, None, None, intersection_count
         elif discrim == 0:  # line intersects in one point, tangent
-            # TODO handle negative t0
             t0 = vDotQ
+            if t0 <= INTERSECT_CLIPPING_FLOOR:  # touching point is behind the ray
+                return False, None, None, None, None, intersection_count
             pt0 = ray.position + t0 * ray.direction
             norm0 = self.normal(pt0)
             intersection_count = 2 # ugh, I'm counting this case as two cause you're probably outside, give me a break
-- 
2.43.0


From a19b19b5241e70962a11c6bf82067d2071072af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 04/31] fix: a ray parallel to a cylinder's axis does not hit
 it

---
 Shapes/shapes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 470f4af..09e7c82 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -170,7 +170,10 @@ class InfiniteCylinder(Shape):
         B = 2 * xE * xD + 2 * yE * yD
         C = xE ** 2 + yE ** 2 - 1
         discriminant = B * B - 4 * A * C
-        if discriminant > 0: # line (not necessarily the ray) intersects in two points
+        if A < 1e-18:  # parallel to the axis, line intersects in no points
+            t0_objectSpace = None
+            t1_objectSpace = None
+        elif discriminant > 0: # line (not necessarily the ray) intersects in two points
             root = np.sqrt(discriminant)
             # some numerical bit to avoid loss of precision in the quadratic,
             # avoid subtracting two things of potentially similar magnitude
-- 
2.43.0


From 5683d374c744bb35200872dba8b4827660e3f7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 05/31] fix: intersect rays with Boolean solids at their first
 real boundary

A difference crashed when only its left operand was hit, a union reported
boundaries inside the other operand, and nested trees lost all but the
nearest crossing of their subtrees. Keep all crossings of the subtrees.
---
 general_optics.py | 309 ++++++++--------------------------------------
 1 file changed, 51 insertions(+), 258 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index c14073c..041ded4 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -9,6 +9,9 @@ import numpy as np
 from mpl_toolkits.mplot3d import art3d
 
 
+COINCIDENT_CROSSINGS = 1e-9  # surface crossings closer than this are at the same place
+
+
 def unit_vector(vector):
     """ Returns the unit vector of the vector.  """
     return vector / np.linalg.norm(vector)
@@ -306,18 +309,56 @@ def printCsgDifference(res1, res2):
 
 
 def test_tree_intersect(tree, ray):
-    opers = {'union': operCsgUnion, 'difference': operCsgDifference, 'intersect': operCsgIntersect}
-    resA = None
-    resB = None
+    # same syntax as the test_intersect methods of the primitives: intersected, int-pt1, int-pt2, norm1, norm2,
+    # intersection_count. Only the nearest intersection is returned; the count is odd if the ray starts inside
     if tree:
-        resA = test_tree_intersect(tree.getLeftChild(), ray)
-        resB = test_tree_intersect(tree.getRightChild(), ray)
-        if resA is not None and resB is not None:
-            # if we are at an interior node, do the specified boolean on the child nodes
-            return opers[tree.getRootVal()](resA, resB, ray)
+        crossings, starts_inside = find_tree_crossings(tree, ray)
+        if crossings:
+            distance, point, normal = crossings[0]
+            return True, point, None, normal, None, len(crossings)
         else:
-            # if we are at a leaf node, test intersect with that primitive:
-            return tree.getRootVal().test_intersect(ray)
+            return False, None, None, None, None, 0
+
+
+def find_tree_crossings(tree, ray):
+    """
+    Finds where a ray crosses the boundary of the solid described by a tree: a list of (distance, point, normal) in
+    order of distance, and whether the ray starts inside the solid.
+    """
+    opers = {'union': operCsgIndexUnion, 'difference': operCsgIndexDifference, 'intersect': operCsgIndexIntersect}
+    left = tree.getLeftChild()
+    right = tree.getRightChild()
+    if left is None or right is None:
+        # if we are at a leaf node, test intersect with that primitive:
+        intersected, pt1, pt2, norm1, norm2, intersection_count = tree.getRootVal().test_intersect(ray)
+        crossings = [(distance_between(ray.position, pt), pt, norm)
+                     for pt, norm in ((pt1, norm1), (pt2, norm2)) if pt is not None]
+        if len(crossings) != intersection_count:
+            crossings = []  # tangent, just touching
+        crossings.sort(key=lambda crossing: crossing[0])
+        return crossings, len(crossings) % 2 == 1
+
+    # if we are at an interior node, follow the ray through the crossings of both child nodes and keep those at which
+    # the specified boolean changes
+    oper = opers[tree.getRootVal()]
+    crossingsA, insideA = find_tree_crossings(left, ray)
+    crossingsB, insideB = find_tree_crossings(right, ray)
+    starts_inside = oper(insideA, insideB, ray.position)
+    inside = starts_inside
+    events = [(crossing, True) for crossing in crossingsA] + [(crossing, False) for crossing in crossingsB]
+    events.sort(key=lambda event: event[0][0])
+    crossings = []
+    for idx, (crossing, is_crossing_A) in enumerate(events):
+        if is_crossing_A:
+            insideA = not insideA
+        else:
+            insideB = not insideB
+        if idx + 1 < len(events) and events[idx + 1][0][0] - crossing[0] <= COINCIDENT_CROSSINGS:
+            continue  # the surfaces of A and B coincide here, cross both of them first
+        if oper(insideA, insideB, crossing[1]) != inside:
+            inside = not inside
+            crossings.append(crossing)
+    return crossings, starts_inside
 
 
 def test_tree_point(tree, point):
@@ -374,251 +415,3 @@ def operCsgIndexDifference(resA, resB, point):
         return False
     else:
         return False
-
-
-def helper_findIntersects(res, ray, mode='nearest'):
-    if (res[1] is not None) and (res[2] is not None):
-        distance1 = distance_between(ray.position, res[1])
-        distance2 = distance_between(ray.position, res[2])
-        if mode == 'nearest':
-            if distance1 < distance2:
-                point = res[1]
-                normal = res[3]
-                distance = distance1
-            else:
-                point = res[2]
-                normal = res[4]
-                distance = distance2
-        elif mode == 'farthest':
-            if distance1 > distance2:
-                point = res[1]
-                normal = res[3]
-                distance = distance1
-            else:
-                point = res[2]
-                normal = res[4]
-                distance = distance2
-        number_of_intersections = 2
-    elif (res[1] is not None):
-        distance1 = distance_between(ray.position, res[1])
-        point = res[1]
-        normal = res[3]
-        distance = distance1
-        number_of_intersections = 1
-    elif (res[2] is not None):
-        distance2 = distance_between(ray.position, res[1])
-        point = res[2]
-        normal = res[4]
-        distance = distance2
-        number_of_intersections = 1
-    else:
-        point = None
-        normal = None
-        distance = None
-        number_of_intersections = 0
-    return point, normal, distance, number_of_intersections
-
-
-def operCsgUnion(resA, resB, ray):
-    # res's are results of the primitive shapes test_intersect methods
-    # have two inputs of syntax: intersected, int-pt1, int-pt2, norm1, norm2, intersection_count    (None if none)
-    # e.g.  "False, None, None, None, None, 0"    if there's no intersection with that primitive
-    # e.g. "True, int-pt1, int-pt2, norm1, norm2, 2"   if the ray intersects twice, goes in and out
-    # UNION: min(tA_min, tB_min)
-    # always add up the intersect counts
-    intersected = False
-    normalB = None
-    normalA = None
-    intersection_count_total = resA[5] + resB[5]
-
-    # if the ray is hitting both primitives:
-    if resA[0] and resB[0]:
-        intersected = True
-
-        # since resA is a hit, get tA_min
-        pointA, normalA, distanceA, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-
-        # since resB is a hit, get tB_min
-        pointB, normalB, distanceB, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-
-        # get int pt for UNION: min(tA_min, tB_min)
-        if (pointA is not None) and (pointB is not None):
-            if distanceA < distanceB:
-                intersection_point = pointA
-                normal = normalA
-            else:
-                intersection_point = pointB
-                normal = normalB
-        elif (pointA is not None):
-            intersection_point = pointA
-            normal = normalA
-        else:
-            intersection_point = None
-            normal = None
-
-        # we did it! return
-        return intersected, intersection_point, None, normal, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive A:
-    elif resA[0]:
-        intersected = True
-        pointA, normalA, distanceA, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-        return intersected, pointA, None, normalA, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive B:
-    elif resB[0]:
-        intersected = True
-        pointB, normalB, distanceB, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-        return intersected, pointB, None, normalB, None, intersection_count_total
-
-    # else, we missed everything
-    else:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-
-
-def operCsgIntersect(resA, resB, ray):
-    # magic internet pseudocode:
-    #   "First time in A and B"
-    #
-
-    # um, not sure about the intersection count logic here, might be right might not be ## TODO
-    intersection_count_total = resA[5] + resB[5]
-
-
-    # if the ray is hitting both primitives:
-    if resA[0] and resB[0]:
-        intersected = True
-
-        pointA_near, normalA_near, distanceA_near, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-        pointB_near, normalB_near, distanceB_near, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-        pointA_far, normalA_far, distanceA_far, number_intersectionsA = helper_findIntersects(resA, ray, mode='farthest')
-        pointB_far, normalB_far, distanceB_far, number_intersectionsB = helper_findIntersects(resB, ray, mode='farthest')
-        # take THAT for data
-
-        # print(f"distanceA_near = {distanceA_near}")
-        # print(f"distanceB_near = {distanceB_near}")
-        # print(f"distanceA_far = {distanceA_far}")
-        # print(f"distanceB_far = {distanceB_far}")
-
-        # if both numbers are even, we are hitting both things from the outside
-        if np.isclose(np.mod(number_intersectionsA, 2), 0) and np.isclose(np.mod(number_intersectionsB, 2), 0):
-            ######
-            # from the magic internet pseudocode:
-            if ((distanceA_near < distanceB_near) and (distanceA_far > distanceB_near)):
-                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
-            elif ((distanceB_near < distanceA_near) and (distanceB_far > distanceA_near)):
-                return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-            else:
-                # I don't think it's supposed to reach here, but whatever, lets just put something
-                print("alert: something weird happening in operCsgIntersect, case 1")
-                intersected = False
-                return intersected, None, None, None, None, intersection_count_total
-            ######
-        # if A is even and B is odd, we are outside A and we are inside B
-        elif np.isclose(np.mod(number_intersectionsA, 2), 0):
-            # both the B distances (_near, _far) returned from our helper should be the same
-            distanceB = distanceB_near
-            pointB = pointB_near
-            # if the B intersection is nearer than both the A intersections, we exit B before we hit A, so no intersect
-            if ((distanceB < distanceA_near) and (distanceB < distanceA_far)):
-                intersected = False
-                return intersected, None, None, None, None, intersection_count_total
-            # um, okay so if we're inside B and we haven't exited, the next intersection is the near A, right?
-            else:
-                intersected = True
-                return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-        # if B is even and A is odd, we are outside B and we are inside A
-        elif np.isclose(np.mod(number_intersectionsB, 2), 0):
-            # both the A distances (_near, _far) returned from our helper should be the same
-            distanceA = distanceA_near
-            pointA = pointA_near
-            # if the A intersection is nearer than both the B intersections, we exit A before we hit B, so no intersect
-            if ((distanceA < distanceB_near) and (distanceA < distanceB_far)):
-                intersected = False
-                return intersected, None, None, None, None, intersection_count_total
-            # um, okay so if we're inside A and we haven't exited, the next intersection is the near B, right?
-            else:
-                intersected = True
-                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
-        # if A and B are both odd, we are inside both A and B
-        else:
-            # in this case, each one gives odd intersection counts, so it'll say we're inside, but we're not...
-            # this is probably a sign of big trouble, but for now let me just put a plus one in here ## TODO
-            intersection_count_total += 1
-            # so we just need to take the nearest intersection
-            # both the A and B distances (_near, _far) returned from our helper should be the same
-            distanceA = distanceA_near
-            distanceB = distanceB_near
-            if distanceA < distanceB:
-                intersected = True
-                return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-            else:
-                intersected = True
-                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
-
-
-    # else, if the ray is only hitting primitive A, for intersect this is a miss:
-    elif resA[0]:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive B, for intersect this is a miss:
-    elif resB[0]:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-    # else, we missed everything
-    else:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-
-
-def operCsgDifference(resA, resB, ray):
-    # magic internet pseudocode:
-    #   "First time in A not in B"
-    #
-    # the order is important for this one:  we are doing A - B
-    #
-
-    # um, not sure about the intersection count logic here, might be right might not be ## TODO
-    intersection_count_total = resA[5] + resB[5]
-
-    # if the ray is hitting both primitives:
-    if resA[0] and resB[0]:
-        intersected = True
-
-        pointA_near, normalA_near, distanceA_near, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-        pointB_near, normalB_near, distanceB_near, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-        pointA_far, normalA_far, distanceA_far, number_intersectionsA = helper_findIntersects(resA, ray, mode='farthest')
-        pointB_far, normalB_far, distanceB_far, number_intersectionsB = helper_findIntersects(resB, ray, mode='farthest')
-        # take THAT for data
-
-        # from the magic internet pseudocode:
-        if distanceA_near < distanceB_near:
-            return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-        elif distanceB_far < distanceA_far:
-            return intersected, pointB_far, None, normalB_far, None, intersection_count_total
-        else:
-            # I don't know if it can even reach here, but whatever, lets just put something
-            print("alert: something weird happening in operCsgDifference")
-            intersected = False
-            return intersected, None, None, None, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive A, for difference A - B this is a hit:
-    elif resA[0]:
-        intersected = True
-        pointA, normalA = helper_findIntersects(resA, ray, mode='nearest')
-        return intersected, pointA, None, normalA, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive B, for difference A - B this is a miss:
-    elif resB[0]:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-    # else, we missed everything
-    else:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-- 
2.43.0


From ef061852b4b507fe8a6ca3599173b127b00bb69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 06/31] fix: diffract by the grating equation for incidence on
 either side of the normal

The rotation senses were right for negative incidence angles only, and rays
striking the back of a grating were sent through it.
---
 optics3d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index 117e3e6..4666962 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -787,6 +787,8 @@ class Ray:
         elif reflect_type == "grating":
             normal = unit_vector(normal)
             incident = unit_vector(self.direction)
+            if np.dot(incident, normal) > 0:  # the normal of the side that is hit
+                normal = -normal
             # get only angles in the grating active plane
             dispersion_plane_normal = optic.tangent
             n = unit_vector(project_onto_plane(normal, dispersion_plane_normal))
@@ -810,9 +812,9 @@ class Ray:
             # theta = n + grating_sign_convention * beta
             # TODO convert back to ray direction
             r = incident - 2 * np.dot(incident, normal) * normal  # reflected
-            RM1 = rotation_matrix_axis_angle(dispersion_plane_normal, -grating_sign_convention * alpha)
+            RM1 = rotation_matrix_axis_angle(dispersion_plane_normal, alpha)
 #            self.direction = unit_vector(RM1.dot(r))
-            RM2 = rotation_matrix_axis_angle(dispersion_plane_normal, -beta)
+            RM2 = rotation_matrix_axis_angle(dispersion_plane_normal, grating_sign_convention * beta)
             self.direction = unit_vector(RM2.dot(unit_vector(RM1.dot(r))))
             if self.print_trajectory:
                 print("light at wavelength {} turned {} by grating".format(self.wavelength, alpha + beta))
-- 
2.43.0


From d07df7956f625eec956fa100803ba8032b0c87f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 07/31] fix: block rays of grating orders that do not propagate

Their direction became NaN.
---
 optics3d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index 4666962..d36d1c4 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -808,7 +808,11 @@ class Ray:
             # d = groove spacing (mm)
             # sign convention: negative orders are towards the side of zero order
             #                  positive orders are backtowards the incident light
-            beta = np.arcsin(optic.G / 1e6 * self.order * self.wavelength - np.sin(grating_sign_convention * alpha))
+            sin_beta = optic.G / 1e6 * self.order * self.wavelength - np.sin(grating_sign_convention * alpha)
+            if np.abs(sin_beta) > 1:  # this order is evanescent, there is no such ray
+                self.blocked = True
+                return
+            beta = np.arcsin(sin_beta)
             # theta = n + grating_sign_convention * beta
             # TODO convert back to ray direction
             r = incident - 2 * np.dot(incident, normal) * normal  # reflected
-- 
2.43.0


From 611c4d92e895b58020f23be05ee4ec31bf7bcbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:23 +0000
Subject: [PATCH 08/31] fix: let diverging ideal lenses pass rays on instead of
 sending them back

With a negative focal length the image point lies on the incoming side.
---
 optics3d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index d36d1c4..b74391c 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -678,7 +678,7 @@ class Ray:
                 # update the ray's direction to go at the focal point
                 focal_point = optic.position + optic.f * the_optic_normal
                 vector_to_image = focal_point - self.position
-                self.direction = vector_to_image / np.linalg.norm(vector_to_image)
+                self.direction = np.sign(optic.f) * vector_to_image / np.linalg.norm(vector_to_image)
             else:
                 # vectors are neither parallel nor orthogonal
                 # step 1: back-calculate the "object" point at 2f
@@ -693,7 +693,7 @@ class Ray:
                 image_point = -object_point
                 # step 3: update the ray's direction to go towards the image point
                 vector_to_image = image_point - r
-                self.direction = vector_to_image / np.linalg.norm(vector_to_image)
+                self.direction = np.sign(optic.f) * vector_to_image / np.linalg.norm(vector_to_image)
 
 
             # # original method,
@@ -727,7 +727,7 @@ class Ray:
                 the_optic_normal = optic.normal
             focal_point = optic.position + optic.f * the_optic_normal
             vector_to_image = focal_point - self.position
-            self.direction = vector_to_image / np.linalg.norm(vector_to_image)
+            self.direction = np.sign(optic.f) * vector_to_image / np.linalg.norm(vector_to_image)
 
         elif refract_type == "snells_law":
             # from 2006 internet pdf:
-- 
2.43.0


From 0658047a11fca69a686854de29e69c1ace4392a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 09/31] fix: savitzky_golay does not depend on the removed
 np.int

---
 general.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/general.py b/general.py
index f08e1ba..2dbd226 100755
--- a/general.py
+++ b/general.py
@@ -180,8 +180,8 @@ def savitzky_golay(y, window_size, order, deriv=0, rate=1):
     from math import factorial
     
     try:
-        window_size = np.abs(np.int(window_size))
-        order = np.abs(np.int(order))
+        window_size = np.abs(int(window_size))
+        order = np.abs(int(order))
     except ValueError:
         raise ValueError("window_size and order have to be of type int")
     if window_size % 2 != 1 or window_size < 1:
-- 
2.43.0


From 8e68afb68d9aef045319e7f052e3c70a5b4e2839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 10/31] fix: FD_int_num passes an integer number of samples to
 linspace

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 2dbd226..def36d6 100755
--- a/general.py
+++ b/general.py
@@ -80,7 +80,7 @@ def FD_int_num( eta, j, tol=1e-12, Nmax=600, fType='roman' ):
         for idx, N in enumerate(Nvec):
             a = -4.5 # limits for t
             b = 5.0
-            t = np.linspace( a, b, N + 1 ) # generate intervals
+            t = np.linspace( a, b, int(N) + 1 ) # generate intervals
             x = np.exp( t - np.exp( -t ) )
             f = x * ( 1 + np.exp( -t ) ) * x ** j / ( 1+ np.exp( x - eta ) )
             y = np.trapz( t, f )
-- 
2.43.0


From 388eea507270d170e70d07b30e50aead043fa3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 11/31] fix: delete_files_with_extension skips folders named
 like matching files

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index def36d6..21603aa 100755
--- a/general.py
+++ b/general.py
@@ -422,7 +422,7 @@ def delete_files_with_extension(folder, extensionWithDot, deleteInSubDirectories
                      os.remove(os.path.join(root, file))
     else:
         for file in os.listdir(folder):
-            if file.endswith(extensionWithDot):
+            if file.endswith(extensionWithDot) and not os.path.isdir(os.path.join(folder, file)):
                 print('removing ' + file)
                 os.remove(os.path.join(folder, file))
                 
-- 
2.43.0


From d22cca7dc1e7c53336656d7e6b2911b4a4a5dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 12/31] fix: unsigned angle of parallel vectors is not NaN

Rounding can push the cosine just outside [-1, 1].
---
 general_optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index 041ded4..d4436a2 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -32,7 +32,7 @@ def angle_between(v1, v2, v_normal=None):
     if v_normal is not None: # signed
         angle = np.arctan2(np.dot((np.cross(v2_u, v1_u)), v_normal), np.dot(v1_u, v2_u))
     else: # unsigned
-        angle = np.arccos(np.dot(v1_u, v2_u))
+        angle = np.arccos(np.clip(np.dot(v1_u, v2_u), -1.0, 1.0))
     return angle
 
 
-- 
2.43.0


From 77214f7e3ae84d998caedb385f709a1a5e4e3e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 13/31] fix: do not hit again the surface a ray has just left

1e-12 is below the rounding error of an intersection point a few hundred mm
from the origin.
---
 Shapes/shapes.py | 2 +-
 optics3d.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 09e7c82..233a634 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -9,7 +9,7 @@ from general_optics import unit_vector, distance_between, project_onto_plane, \
     rotation_matrix4, scaling_matrix4, translation_matrix4
 
 
-INTERSECT_CLIPPING_FLOOR = 1e-12
+INTERSECT_CLIPPING_FLOOR = 1e-9
 
 
 def check_R_and_D(R, D):
diff --git a/optics3d.py b/optics3d.py
index b74391c..16e3920 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -19,7 +19,7 @@ from Shapes.shapes import Rectangle, Circle, Sphere
 
 
 
-INTERSECT_CLIPPING_FLOOR = 1e-12
+INTERSECT_CLIPPING_FLOOR = 1e-9
 INDEX_OF_THE_WORLD = 1.0000000
 
 
-- 
2.43.0


From 46c16eda5e034db939c3a4a2aced4e75a1c894ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 14/31] fix: rotation_matrix and rotation_matrix2 leave their
 arguments alone

Normalising in place changed the caller's vectors and failed for integer ones.
---
 general_optics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index d4436a2..3624015 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -67,8 +67,8 @@ def rotation_matrix2(a, b):
     """
     Calculates the rotation matrix that rotates unit vector a onto unit vector b.
     """
-    a /= np.linalg.norm(a)
-    b /= np.linalg.norm(b)
+    a = a / np.linalg.norm(a)
+    b = b / np.linalg.norm(b)
 
     v = np.cross(a, b)
     sin_angle = np.linalg.norm(v)
@@ -130,8 +130,8 @@ def rotation_matrix(v1, v2):
     """
     Calculates the rotation matrix that changes v1 into v2.
     """
-    v1 /= np.linalg.norm(v1)
-    v2 /= np.linalg.norm(v2)
+    v1 = v1 / np.linalg.norm(v1)
+    v2 = v2 / np.linalg.norm(v2)
 
     cos_angle = np.dot(v1, v2)
     d = np.cross(v1, v2)
-- 
2.43.0


From 1f9318c7d5b61e3e09a9122206cc9421685163f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 15/31] fix: proper rotations between opposite and nearly
 opposite vectors

Opposite vectors gave the point inversion, which is no rotation, and nearly
opposite ones a matrix dominated by rounding errors.
---
 general_optics.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index 3624015..7181f35 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -62,6 +62,14 @@ def rotation_matrix_axis_angle(axis, theta):
                      [2 * (bd + ac), 2 * (cd - ab), aa + dd - bb - cc]])
 
 
+def half_turn_matrix(a):
+    """
+    Calculates the rotation matrix of a half turn about an axis perpendicular to unit vector a, it turns a into -a.
+    """
+    axis = unit_vector(np.cross(a, np.eye(3)[np.argmin(np.abs(a))]))
+    return 2 * np.outer(axis, axis) - np.eye(3)
+
+
 # https://math.stackexchange.com/questions/180418/calculate-rotation-matrix-to-align-vector-a-to-vector-b-in-3d
 def rotation_matrix2(a, b):
     """
@@ -74,14 +82,18 @@ def rotation_matrix2(a, b):
     sin_angle = np.linalg.norm(v)
     cos_angle = np.dot(a, b)
 
-    if sin_angle == 0:
-        M = np.identity(3) if cos_angle > 0. else -np.identity(3)
+    if cos_angle < 0 and sin_angle < 1e-6:  # (nearly) opposite, v is not a reliable axis
+        M = np.dot(rotation_matrix2(-a, b), half_turn_matrix(a))
+    elif sin_angle == 0:
+        M = np.identity(3)
     else:
         eye = np.eye(3)
         skew = np.array([[    0,  -v[2],   v[1]],
                          [ v[2],      0,  -v[0]],
                          [-v[1],   v[0],      0]], dtype=np.float64)
-        M = eye + skew + np.dot(skew, skew) / (1 + cos_angle)
+        # (1 - cos) / sin^2 is 1 / (1 + cos), without cancellation for obtuse angles
+        factor = 1 / (1 + cos_angle) if cos_angle > 0 else (1 - cos_angle) / sin_angle ** 2
+        M = eye + skew + factor * np.dot(skew, skew)
     return M
 
 
@@ -137,8 +149,10 @@ def rotation_matrix(v1, v2):
     d = np.cross(v1, v2)
     sin_angle = np.linalg.norm(d)
 
-    if sin_angle == 0:
-        M = np.identity(3) if cos_angle > 0. else -np.identity(3)
+    if cos_angle < 0 and sin_angle < 1e-6:  # (nearly) opposite, d is not a reliable axis
+        M = np.dot(half_turn_matrix(v1), rotation_matrix(-v1, v2))
+    elif sin_angle == 0:
+        M = np.identity(3)
     else:
         d /= sin_angle
 
-- 
2.43.0


From 3aaebd43dd853d89ece1128891a01aebdbee8294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 16/31] fix: print plain optics and optics without a normal

Their repr raised AttributeError or TypeError.
---
 optics3d.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index 16e3920..836cc59 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -60,8 +60,7 @@ class Optic:
         self.shape = shape
 
     def __repr__(self):
-        return("Optic ({}, {}, {}),  ({}, {}, {})".format(self.optic_type,
-                                                       to_precision(self.position[0], 5),
+        return("Optic ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                        to_precision(self.position[1], 5),
                                                        to_precision(self.position[2], 5),
                                                        to_precision(self.normal[0], 5),
@@ -168,12 +167,17 @@ class Mirror(Optic):
             self.surfaces.append(Circle(position, normal, D=D))
             self.surfaces.append(Sphere(center=self.p_rc, R=self.rc))
         elif shape == "circular_convex_spherical":
+            self.normal = unit_vector(normal) if normal is not None else None
             self.surfaces.append(Sphere(center=self.position, D=self.D))
         else:
             raise ValueError("Unknown shape")
 
 
     def __repr__(self):
+        if self.normal is None:
+            return("Mirror ({}, {}, {})".format(to_precision(self.position[0], 5),
+                                                to_precision(self.position[1], 5),
+                                                to_precision(self.position[2], 5)))
         return("Mirror ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                            to_precision(self.position[1], 5),
                                                            to_precision(self.position[2], 5),
@@ -346,6 +350,10 @@ class Lens(Optic):
 
 
     def __repr__(self):
+        if self.normal is None:
+            return("Lens ({}, {}, {})".format(to_precision(self.position[0], 5),
+                                                to_precision(self.position[1], 5),
+                                                to_precision(self.position[2], 5)))
         return("Lens ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                            to_precision(self.position[1], 5),
                                                            to_precision(self.position[2], 5),
-- 
2.43.0


From 5100c66847095402d6d3d35c32b4c2202898e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 17/31] fix: report the refractive index inside ball lenses

---
 optics3d.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optics3d.py b/optics3d.py
index 836cc59..3a6fddf 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -448,6 +448,12 @@ class Lens(Optic):
                         eta1=eta1,
                         eta2=eta2)
 
+    def get_index_at_point_if_inside(self, point):
+        if self.shape == "spherical" and self.surfaces[0].test_point(point):
+            return self.index
+        else:
+            return None
+
     def draw(self, ax, view="3d"):  # Lens
         """Um, somehow draw the optic"""
         # 3D
-- 
2.43.0


From 05c2b9525e046483b05749b7809a7ba9ab6a762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 18/31] fix: draw rectangular mirrors and gratings with their
 own tangent

The drawn rectangle was turned to the normal but not about it.
---
 optics3d.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index 3a6fddf..7f52b78 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -12,7 +12,6 @@ from general_optics import unit_vector, angle_between, distance_between, pathpat
     rotation_matrix_axis_angle, project_onto_plane, postOrderEval, test_tree_intersect, test_tree_point
 from mpl_toolkits.mplot3d.art3d import Poly3DCollection
 from matplotlib.patches import Circle as mplCircle
-from matplotlib.patches import Rectangle as mplRectangle
 from Shapes.shapes import Rectangle, Circle, Sphere
 
 # note: we are representing vectors as 1d numpy arrays, i.e., R = np.array([x, y, z])
@@ -292,14 +291,10 @@ class Mirror(Optic):
                 # return the Artist created
                 return None
             elif self.shape == "rectangular_flat":
-                x = self.position[0]
-                y = self.position[1]
-                z = self.position[2]
-                p = mplRectangle((-self.w/2, -self.h/2), width=self.w, height=self.h, facecolor="silver", alpha=0.5,
-                                  edgecolor="black")
-                ax.add_patch(p)
-                pathpatch_2d_to_3d(p, z=0, normal=self.normal)
-                pathpatch_translate(p, (x, y, z))
+                # (not a patch turned to the normal, it would not be turned to the tangent too)
+                for surface in self.surfaces:
+                    ax.add_collection3d(Poly3DCollection([surface.bounds], facecolor="silver", alpha=0.5,
+                                                         edgecolor="black"))
                 return None
             elif self.shape == "circular_concave_spherical":  # for now just draw as circle
                 x = self.position[0]
@@ -538,15 +533,10 @@ class Grating(Optic):
         """Um, somehow draw the optic"""
         if view == "3d" or view == "xyz":
             if self.shape == "rectangular_flat":
-                x = self.position[0]
-                y = self.position[1]
-                z = self.position[2]
-                p = mplRectangle((-self.w / 2, -self.h / 2), width=self.w, height=self.h, facecolor="silver", alpha=0.5,
-                                 edgecolor="black")
-                ax.add_patch(p)
-                pathpatch_2d_to_3d(p, z=0, normal=self.normal)
-                pathpatch_translate(p, (x, y, z))
-                # return the Artist created
+                # (not a patch turned to the normal, it would not be turned to the tangent too)
+                for surface in self.surfaces:
+                    ax.add_collection3d(Poly3DCollection([surface.bounds], facecolor="silver", alpha=0.5,
+                                                         edgecolor="black"))
                 return None
 
 
-- 
2.43.0


From 10ec14cc01160b5706126c4900d7d893879fd7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 19/31] fix: a rectangle of zero height or width is not hit
 beyond its ends

---
 Shapes/shapes.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 233a634..818bfe4 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -406,16 +406,10 @@ class Rectangle(Shape):
         # Eric Baineville's answer
         intersect_the_plane, intersection_pt, normal = self.plane.test_intersect(ray)
         if intersect_the_plane:
-            M = intersection_pt
-            A = self.bounds[0, :]
-            B = self.bounds[1, :]
-            C = self.bounds[2, :]
-            AB = B - A
-            BC = C - B
-            AM = M - A
-            BM = M - B
-            if 0 <= np.dot(AB, AM) <= np.dot(AB, AB):
-                if 0 <= np.dot(BC, BM) <= np.dot(BC, BC):
+            # (along the unit tangents instead of the edges, the edges of a degenerate rectangle have no direction)
+            M = intersection_pt - self.center
+            if np.abs(np.dot(M, self.tangent)) <= self.h / 2:
+                if np.abs(np.dot(M, self.tangent2)) <= self.w / 2:
                     return True, intersection_pt, normal
         return False, None, None
 
-- 
2.43.0


From 12de84c5d1d92f9dd394fc359277013097b28122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 20/31] fix: a ray along the axis of a cylinder is inside it
 for Boolean solids

---
 general_optics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index 7181f35..98131ba 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -350,7 +350,12 @@ def find_tree_crossings(tree, ray):
         if len(crossings) != intersection_count:
             crossings = []  # tangent, just touching
         crossings.sort(key=lambda crossing: crossing[0])
-        return crossings, len(crossings) % 2 == 1
+        starts_inside = len(crossings) % 2 == 1
+        if not crossings:
+            # outside, or inside and never leaving it (along the axis of an infinite cylinder)
+            primitive = tree.getRootVal()
+            starts_inside = primitive.test_point(ray.position + primitive.R * ray.direction)
+        return crossings, starts_inside
 
     # if we are at an interior node, follow the ray through the crossings of both child nodes and keep those at which
     # the specified boolean changes
-- 
2.43.0


From d5e08581a4f8ed6ae72f4b2157981c3295b9ffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 21/31] fix: report the side a ray starts on also if it never
 leaves an unbounded solid

---
 general_optics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index 98131ba..eb49624 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -329,7 +329,10 @@ def test_tree_intersect(tree, ray):
         crossings, starts_inside = find_tree_crossings(tree, ray)
         if crossings:
             distance, point, normal = crossings[0]
-            return True, point, None, normal, None, len(crossings)
+            intersection_count = len(crossings)
+            if (intersection_count % 2 == 1) != starts_inside:
+                intersection_count += 1  # it never leaves the solid (along the axis of an infinite cylinder)
+            return True, point, None, normal, None, intersection_count
         else:
             return False, None, None, None, None, 0
 
-- 
2.43.0


From 5d6d42204d2d002a13eb84c2c2614b529b417553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 22/31] fix: savitzky_golay accepts any array_like signal, as
 documented

---
 general.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/general.py b/general.py
index 21603aa..929bd68 100755
--- a/general.py
+++ b/general.py
@@ -190,6 +190,7 @@ def savitzky_golay(y, window_size, order, deriv=0, rate=1):
         raise TypeError("window_size is too small for the polynomials order")
     order_range = range(order+1)
     half_window = (window_size -1) // 2
+    y = np.asarray(y)
     # precompute coefficients
     b = np.mat([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
     m = np.linalg.pinv(b).A[deriv] * rate**deriv * factorial(deriv)
-- 
2.43.0


From a76d3c498caf62b9efffbf1c926f15a2ad811cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 23/31] fix: expressions with a leaf that is zero, empty or an
 array are printed

---
 general_optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index eb49624..9b98b0e 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -304,7 +304,7 @@ def postOrderEval(tree):
     if tree:
         res1 = postOrderEval(tree.getLeftChild())
         res2 = postOrderEval(tree.getRightChild())
-        if res1 and res2:
+        if res1 is not None and res2 is not None:
             return opers[tree.getRootVal()](res1, res2)
         else:
             return tree.getRootVal()
-- 
2.43.0


From 2f69a913a40917109aeb1add141f3cc233a48a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 24/31] fix: FD_int_num scales the roman integral with
 Gamma(j+1) of its own order, not of 1/2

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 929bd68..2a22664 100755
--- a/general.py
+++ b/general.py
@@ -96,7 +96,7 @@ def FD_int_num( eta, j, tol=1e-12, Nmax=600, fType='roman' ):
     if fType == 'script':
         pass
     elif fType == 'roman':
-        y = y * np.sqrt(np.pi)/2
+        y = y * spec.gamma( j + 1 )
     else:
         print("error: unrecognized fType (input 'script' or 'roman'")
     return (y, N, err)
-- 
2.43.0


From a3990d822847d98bef4d85d7769e7712fc874a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 25/31] fix: FD_int_num failed for orders other than -1/2, 1/2
 and 3/2 at reduced energies above 20

---
 general.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/general.py b/general.py
index 2a22664..4b70645 100755
--- a/general.py
+++ b/general.py
@@ -75,6 +75,10 @@ def FD_int_num( eta, j, tol=1e-12, Nmax=600, fType='roman' ):
             y = 8 * eta**(5/2) / 15 / np.sqrt(np.pi)
             N = np.nan
             err = np.nan
+        else:
+            y = eta**(j + 1) / spec.gamma( j + 2 )
+            N = np.nan
+            err = np.nan
     else:
         Nvec = np.linspace(1,Nmax,Nmax)
         for idx, N in enumerate(Nvec):
-- 
2.43.0


From a88a8fa320ff957155793528d833c3c04789e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 26/31] fix: clean-up completes for file names the output
 cannot encode

---
 general.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/general.py b/general.py
index 4b70645..9912502 100755
--- a/general.py
+++ b/general.py
@@ -417,18 +417,23 @@ def movingAverageFast(x, N):
     return np.convolve(x, np.ones((N,))/N, 'same')
     #[(N-1):]
     
+def printable(filename):
+    # (not every file name can be encoded by every output)
+    return filename.encode('ascii', 'backslashreplace').decode('ascii')
+
+
 def delete_files_with_extension(folder, extensionWithDot, deleteInSubDirectories=False):
     import os
     if deleteInSubDirectories:
         for root, dirs, files in os.walk(folder):
             for file in files:
                 if file.endswith(extensionWithDot):
-                     print('removing ' + os.path.join(root, file))
+                     print('removing ' + printable(os.path.join(root, file)))
                      os.remove(os.path.join(root, file))
     else:
         for file in os.listdir(folder):
             if file.endswith(extensionWithDot) and not os.path.isdir(os.path.join(folder, file)):
-                print('removing ' + file)
+                print('removing ' + printable(file))
                 os.remove(os.path.join(folder, file))
                 
 
-- 
2.43.0


From 7b30b5e8a6f8aa8b128613be0e032742195d387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 27/31] fix: vector helpers no longer overflow for arrays of
 small or unsigned integers

---
 general_optics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index 9b98b0e..e5c8e2e 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -38,7 +38,7 @@ def angle_between(v1, v2, v_normal=None):
 
 def distance_between(p1, p2):
     """ Returns distance between two points """
-    return np.linalg.norm(p1 - p2)
+    return np.linalg.norm(np.subtract(p1, p2, dtype=float))
 
 
 def rotation_matrix_axis_angle(axis, theta):
@@ -51,7 +51,7 @@ def rotation_matrix_axis_angle(axis, theta):
     """
     # https://stackoverflow.com/questions/6802577/rotation-of-3d-vector
     # Dec 9 2018
-    axis = np.asarray(axis)
+    axis = np.asarray(axis, dtype=float)
     axis = axis / np.sqrt(np.dot(axis, axis))
     a = np.cos(theta / 2.0)
     b, c, d = -axis * np.sin(theta / 2.0)
@@ -251,6 +251,7 @@ def image_rays(y_center, size=10, angle=0.2, x_res=11, z_res=11, angle_res=3, pa
 
 
 def project_onto_plane(x, n):
+    x = np.asarray(x, dtype=float)
     d = np.dot(x, n) / np.linalg.norm(n)
     p = [d * unit_vector(n)[i] for i in range(len(n))]
     return np.array([x[i] - p[i] for i in range(len(x))])
-- 
2.43.0


From 51c2ed67edd23a3cf84a6719230dd50fff260459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 28/31] fix: savitzky_golay pads signals of small or unsigned
 integers without overflow

---
 general.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/general.py b/general.py
index 9912502..9933b85 100755
--- a/general.py
+++ b/general.py
@@ -195,6 +195,8 @@ def savitzky_golay(y, window_size, order, deriv=0, rate=1):
     order_range = range(order+1)
     half_window = (window_size -1) // 2
     y = np.asarray(y)
+    if not np.issubdtype(y.dtype, np.inexact):  # (the padding would overflow in small and unsigned integers)
+        y = y.astype(float)
     # precompute coefficients
     b = np.mat([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
     m = np.linalg.pinv(b).A[deriv] * rate**deriv * factorial(deriv)
-- 
2.43.0


From 7f88039149ae56c4e2f52feeaab4f1526ea4cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 29/31] fix: find_nearest finds the nearest entry of arrays of
 small or unsigned integers

---
 general.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 9933b85..2e4dc34 100755
--- a/general.py
+++ b/general.py
@@ -394,7 +394,10 @@ def nparray2spacedstring(nparray,leftpad,formatstr,rightpad,max_line_width):
 
 def find_nearest(array,value):
     import numpy as np
-    idx = (np.abs(array-value)).argmin()
+    wide = np.asarray(array)
+    if np.issubdtype(wide.dtype, np.integer):  # (the difference would overflow in small and unsigned integers)
+        wide = wide.astype(np.promote_types(wide.dtype, np.int64))
+    idx = (np.abs(wide-value)).argmin()
     return idx, array[idx]
     
     
-- 
2.43.0


From 636637d3af627b7ef5356f374980851463576ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 30/31] fix: log_interp1d keeps its precision for tables of
 small integers

---
 general.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/general.py b/general.py
index 2e4dc34..a534473 100755
--- a/general.py
+++ b/general.py
@@ -334,12 +334,13 @@ def show_plot(figure_id=None):
 def log_interp1d(xx, yy, kind='linear'):
     import numpy as np
     import scipy.interpolate as scinterp
-    logx = np.log10(xx)
-    logy = np.log10(yy)
+    # (the logarithm of small integers has few digits)
+    logx = np.log10(np.asarray(xx, dtype=float))
+    logy = np.log10(np.asarray(yy, dtype=float))
     order = 1
     s = scinterp.InterpolatedUnivariateSpline(logx, logy, k=order)
 #    linterp = scinterp.interp1d(logx, logy, kind=kind)
-    logterp = lambda zz: np.power(10.0, s(np.log10(zz)))
+    logterp = lambda zz: np.power(10.0, s(np.log10(np.asarray(zz, dtype=float))))
     return logterp
 
 def raise_window(figname=None):
-- 
2.43.0


From ca90ad2aad3c979dea3c4dc1d5a6365d5c3f1d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:03 +0000
Subject: [PATCH 31/31] fix: Ray.run changed a distance given as an array of
 one number

---
 optics3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index 7f52b78..af679ff 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -866,13 +866,13 @@ class Ray:
                 if self.print_trajectory:
                     print("not intersected (messages TODO)")
                 self.fly(distance=distance_remaining)
-                distance_remaining -= max_distance
+                distance_remaining = distance_remaining - max_distance
             else:
                 if self.print_trajectory:
                     print("intersected (messages TODO)")
                 distance_to_int_optic = distance_between(self.position, intersection_pt)
                 self.fly(distance=distance_to_int_optic)
-                distance_remaining -= distance_to_int_optic
+                distance_remaining = distance_remaining - distance_to_int_optic
                 interaction_count += 1
                 if self.type == "faerie_fire":
                     self.blocked = True
-- 
2.43.0

