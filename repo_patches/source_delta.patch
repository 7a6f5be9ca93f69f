From 67e52aea9ec705098d5797a0344b0dc62e13af80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 01/66] fix: crop the left operand in Affine.compare_with where
 it is the only function defined

The pieces on which only self is defined were returned uncropped (and were
self), so the pieces overlapped and merging them modified the operand.
---
 blueprint/src/python/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 7553b46..d9adc3c 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -247,6 +247,7 @@ class Affine:
                 interval = Interval(x, x, True, True)
                 if domain is None or domain.contains(x):
                     p = self if self.domain.contains(x) else None
+                    p = compare_f(p, None, interval)
                     for f in f2:
                         if f.domain.contains(x):
                             p = compare_f(p, f, interval)
@@ -259,6 +260,7 @@ class Affine:
             interval = Interval(crits[i], crits[i + 1], False, False)
             test_x = interval.midpoint()
             p = self if self.domain.contains(test_x) else None
+            p = compare_f(p, None, interval)
             for f in f2:
                 if f.domain.contains(test_x):
                     p = compare_f(p, f, interval)
-- 
2.43.0


From 348f01e69e8f9552fd22f6f98bd162717255a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 02/66] fix: Polytope.is_subset_of must look at the LP status
 for unbounded polytopes

An unbounded LP was read as satisfied, so e.g. {x >= 0} was reported as a
subset of {x <= 1}.
---
 blueprint/src/python/polytope.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 20fbda6..0a7174b 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -652,6 +652,10 @@ class Polytope:
         
         Ab = as_ineq(other.mat) # Represent other polytope as Ax <= b
 
+        # The empty set is a subset of every set
+        if self.is_empty(include_boundary=True):
+            return True
+
         # Construct matrix
         mat = self.mat.copy()
         mat.obj_type = cdd.LPObjType.MIN
@@ -666,7 +670,9 @@ class Polytope:
             mat.obj_func = ab
             lp = cdd.LinProg(mat)
             lp.solve()
-            if lp.obj_value < 0:
+            # If there is no optimal solution then the objective is unbounded below
+            # (since this polytope is nonempty), so the constraint is violated
+            if lp.status != cdd.LPStatusType.OPTIMAL or lp.obj_value < 0:
                 return False
         return True
 
-- 
2.43.0


From 1bf7be47e3dd008afb55cf326937220b770849a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 03/66] fix: Polytope equality compared listed vertices only

Two different unbounded polytopes with the same vertices were equal, and a
polytope built from points including non-vertices was not equal to itself
built from its constraints.
---
 blueprint/src/python/polytope.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 0a7174b..2b4cba2 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -165,14 +165,7 @@ class Polytope:
         )
 
     def __eq__(self, other):
-        if self.vertices is None:
-            self.compute_V_rep()
-        if other.vertices is None:
-            other.compute_V_rep()
-        # Construct set of vertices from V representation (as tuples which are hashable)
-        return set(tuple(v) for v in self.vertices) == set(
-            tuple(v) for v in other.vertices
-        )
+        return self.is_subset_of(other) and other.is_subset_of(self)
 
     # -------------------------------------------------------------------------
     # internal/private functions
-- 
2.43.0


From 89c01a43feb1d436e9cd0d88a755cb2098b2a6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 04/66] fix: Polytope.from_V_rep kept points that are not
 vertices

get_vertices (and get_edges, get_centroid) of a projected polytope returned
interior and repeated points.
---
 blueprint/src/python/polytope.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 2b4cba2..9ceb2ee 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -336,14 +336,10 @@ class Polytope:
         V = cdd.Matrix([[1] + v for v in verts], number_type="fraction")
         V.rep_type = cdd.RepType.GENERATOR
         poly = cdd.Polyhedron(V)
-        H = poly.get_inequalities()
-
-        p = Polytope([])  # Construct an empty polytope temporarily
-        p.mat = H
-        p.polyhedron = poly
-        p.vertices = copy.copy(verts)  # Shallow copy is fine for now
-        p.rays = []
-        return p
+        
+        # The vertices are computed from the constraints when required, since verts
+        # may contain points that are not vertices
+        return Polytope._from_mat(poly.get_inequalities())
 
     # -------------------------------------------------------------------------
     # public instance functions
-- 
2.43.0


From 6c004a0c47d2c792f82186c5c163fe3341a2ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 05/66] fix: Polytope.is_empty(include_boundary=False) with
 trivial constraints

A constraint 0 >= 0, as left by substitute, made every polytope look empty.
---
 blueprint/src/python/polytope.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 9ceb2ee..eeca3f2 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -599,13 +599,16 @@ class Polytope:
             # empty. 
 
             # Edge case: if there are any linear constraints, the polytope is empty
-            if len(self.mat.lin_set) > 0:
+            # (except trivial constraints 0 = 0, e.g. from substitute)
+            if any(any(x != 0 for x in self.mat[i]) for i in self.mat.lin_set):
                 return True
 
             # coefficient matrix represented as [M 1] . [x epsilon]' where 1 is a column 
             # of 1's and M is the set of inequality constraints
+            # (trivial constraints 0 >= 0, e.g. from substitute, are skipped)
             A = cdd.Matrix(
-                [list(row) + [-1] for row in Polytope._matrix_as_list(self.mat, False)] + 
+                [list(row) + [-1] for row in Polytope._matrix_as_list(self.mat, False)
+                    if any(x != 0 for x in row)] + 
                 [[0] * self.mat.col_size + [1]] +               # epsilon >= 0
                 [[1] + [0] * (self.mat.col_size - 1) + [-1]],   # epsilon <= 1
                 linear=False
-- 
2.43.0


From 0e88a149c75d094d05ef89c4609baa965c107a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 06/66] fix: Polytope.set_minus of a polytope with equality
 constraints

The equality constraints were ignored, so a full-dimensional piece of A was
removed.
---
 blueprint/src/python/polytope.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index eeca3f2..2201b5a 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -529,6 +529,13 @@ class Polytope:
         if not isinstance(other, Polytope):
             raise ValueError("Parameter other must be of type Polytope")
         
+        # If B has linear constraints then it has no interior, so subtracting it only
+        # affects boundaries
+        if any(any(x != 0 for x in other.mat[i]) for i in other.mat.lin_set):
+            if simplify and self.is_empty(include_boundary=False):
+                return []
+            return [copy.copy(self)]
+
         # Iterate through the constraints of B. For each constraint, take its 
         # complement, then add the original constraint to the set of constraints
         # for the new region. All linear constraints are ignored (see above for 
-- 
2.43.0


From 1e27d46e811dc1c05c64bb466b0b3fbfeb4a0048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 07/66] fix: Polytope.lift of a polytope with only equality
 constraints

---
 blueprint/src/python/polytope.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 2201b5a..1106eee 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -792,11 +792,14 @@ class Polytope:
             c[i + 1] = -1
             ineq_constraints.append(c)
         
-        # Construct matrix 
-        mat = cdd.Matrix(ineq_constraints, linear=False, number_type="fraction")
+        # Construct matrix (its dimensions are not initialised if there are no rows)
+        if len(ineq_constraints) > 0:
+            mat = cdd.Matrix(ineq_constraints, linear=False, number_type="fraction")
+            if len(eq_constraints) > 0:
+                mat.extend(eq_constraints, linear=True)
+        else:
+            mat = cdd.Matrix(eq_constraints, linear=True, number_type="fraction")
         mat.rep_type = cdd.RepType.INEQUALITY
-        if len(eq_constraints) > 0:
-            mat.extend(eq_constraints, linear=True)
         return Polytope._from_mat(mat)
 
 
-- 
2.43.0


From 0aaff445cac98899836587a5e97bb90c05c31a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 08/66] fix: copying a Polytope lost its label

---
 blueprint/src/python/polytope.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 1106eee..96696f2 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -145,6 +145,8 @@ class Polytope:
     def __copy__(self):
         p = Polytope._from_mat(self.mat.copy())
         p.is_canonical = self.is_canonical
+        if hasattr(self, "label"):
+            p.label = self.label
         return p
 
     def __repr__(self):
-- 
2.43.0


From fa3e88161f8522cab38b075ed4261a823ed7f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 09/66] fix: Region.is_subset_of a union of polytopes raised
 AttributeError

---
 blueprint/src/python/region.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index a7a3ac1..891cdcd 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -181,7 +181,8 @@ class Region:
             if region.region_type == Region_Type.POLYTOPE:
                 return self.child.is_subset_of(region.child)
             elif region.region_type == Region_Type.UNION or region.region_type == Region_Type.DISJOINT_UNION:
-                return self.child.is_covered_by(region.child)
+                if all(r.region_type == Region_Type.POLYTOPE for r in region.child):
+                    return self.child.is_covered_by([r.child for r in region.child])
             elif region.region_type == Region_Type.INTERSECT:
                 return all(self.is_subset_of(p) for p in region.child)
         
-- 
2.43.0


From 16648fad5fa723ca70860e9a34e775c60723e93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 10/66] fix: Region.project of an intersection with an empty or
 a single child

A single child raised IndexError, and empty children were dropped as if they
were the whole space.
---
 blueprint/src/python/region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 891cdcd..d991645 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -235,9 +235,9 @@ class Region:
         
         if self.region_type == Region_Type.INTERSECT:
             ps = [c.project(dims) for c in self.child]
-            ps = [p for p in ps if p is not None]
-            if len(ps) == 0: return None
-            if len(ps) == 1: return ps[1]
+            # The intersection is empty if any of the regions are empty
+            if any(p is None for p in ps): return None
+            if len(ps) == 1: return ps[0]
             return Region(Region_Type.INTERSECT, ps)
         
         # In particular, complements are not yet supported. 
-- 
2.43.0


From f5f2a9045c9c75c5dd60b13064c3bf518835e4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 11/66] fix: Region.lift of a complement was not a complement

---
 blueprint/src/python/region.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index d991645..62ad64f 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -251,9 +251,22 @@ class Region:
                                     Region_Type.DISJOINT_UNION, Region_Type.INTERSECT, Region_Type.COMPLEMENT}:
             raise NotImplementedError("lifting operation is not implemented for the region_type {self.region_type}.")
         
-        if self.region_type in {Region_Type.POLYTOPE, Region_Type.COMPLEMENT}:
+        if self.region_type == Region_Type.POLYTOPE:
             return Region(Region_Type.POLYTOPE, self.child.lift(var))
         
+        if self.region_type == Region_Type.COMPLEMENT:
+            comp = Region(Region_Type.COMPLEMENT, self.child.lift(var))
+            # The limits along the new dimensions also apply to the complement 
+            box = []
+            for i in range(len(var)):
+                if isinstance(var[i], tuple):
+                    unit = [1 if j == i else 0 for j in range(len(var))]
+                    box.append([-var[i][0]] + unit)
+                    box.append([var[i][1]] + [-u for u in unit])
+            if len(box) == 0:
+                return comp
+            return Region.intersect([Region.from_polytope(Polytope(box)), comp])
+        
         return Region(self.region_type, [c.lift(var) for c in self.child])
 
     # Returns a representation of this region as a disjoint union of convex polytopes.
-- 
2.43.0


From 98e26addb2bc37b7020883313cff4f979f3a310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 12/66] fix: Region.to_str of a complement raised TypeError

---
 blueprint/src/python/region.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 62ad64f..d939b54 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -60,7 +60,7 @@ class Region:
                 return ("\t" * indentation) + p + "\n"
             else:
                 s = ("\t" * indentation) + Region_Type.to_str(region.region_type) + "\n"
-                for r in region.child:
+                for r in (region.child if isinstance(region.child, list) else [region.child]):
                     s += Region.to_str(r, use_indentation, indentation + 1, variables)
                 return s
             
@@ -70,7 +70,8 @@ class Region:
                 return str(region.child) if variables is None else region.child.to_str(variables)
             else:
                 return Region_Type.to_str(region.region_type) + " of {" + \
-                    ", ".join(Region.to_str(r, use_indentation=False, variables=variables) for r in region.child) + "}"
+                    ", ".join(Region.to_str(r, use_indentation=False, variables=variables)
+                        for r in (region.child if isinstance(region.child, list) else [region.child])) + "}"
     
 
     # Private methods --------------------------------------------------------
-- 
2.43.0


From b0f9246ca3da12ea300e075a5295cebede0b1587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 13/66] fix: copying a Region shared its polytopes

set_label on the copy, as in compute_large_value_region, labelled the polytopes
of the original.
---
 blueprint/src/python/region.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index d939b54..134557e 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -50,6 +50,8 @@ class Region:
         return self.to_str(0)
 
     def __copy__(self):
+        if isinstance(self.child, list):
+            return Region(self.region_type, [copy.copy(c) for c in self.child])
         return Region(self.region_type, copy.copy(self.child))
         
     def to_str(region, use_indentation=True, indentation=0, variables=None):
-- 
2.43.0


From 70ad0fea62536cd473a45f3a1a2a27cce38bac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 14/66] fix: RationalFunction subtraction operator, division by
 a number and addition of unsupported operands

---
 blueprint/src/python/functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index d9adc3c..13da6e2 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -784,7 +784,7 @@ class RationalFunction:
         return self.add(other)
     
     def __sub__(self, other):
-        return self.sub(other)
+        return self.subtract(other)
 
     def __mul__(self, other):
         return self.mul(other)
@@ -913,7 +913,7 @@ class RationalFunction:
             r.num = self.num * other.den + self.den * other.num
             r.den = self.den * other.den
             return r
-        return NotImplementedError()
+        raise NotImplementedError()
     
     def subtract(self, other):
         r = RationalFunction([])
@@ -943,8 +943,8 @@ class RationalFunction:
     def div(self, other):
         r = RationalFunction([])
         if isinstance(other, numbers.Number):
-            r.num = self.num * other
-            r.den = self.den
+            r.num = self.num
+            r.den = self.den * other
             return r
         if isinstance(other, RationalFunction):
             r.num = self.num * other.den
-- 
2.43.0


From 30db7019a994ad087e53d72185cf3d18b7edebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 15/66] fix: constant RationalFunctions were evaluated in
 floating point and had no roots or extrema

---
 blueprint/src/python/functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 13da6e2..55b887b 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -753,14 +753,14 @@ class RationalFunction:
         if den_coeffs == None:
             den_coeffs = [1]
 
-        num = 0
-        xn = 1
+        num = sympy.Integer(0)
+        xn = sympy.Integer(1)
         for coeff in num_coeffs[::-1]:
             num += coeff * xn
             xn *= RationalFunction.x
 
-        den = 0
-        xn = 1
+        den = sympy.Integer(0)
+        xn = sympy.Integer(1)
         for coeff in den_coeffs[::-1]:
             den += coeff * xn
             xn *= RationalFunction.x
-- 
2.43.0


From e3c84e4793bd4579d30c51eeb9a1a4e01cbf98d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 16/66] fix: RationalFunction.roots of a non-polynomial, and
 parsing a sum of fractions

---
 blueprint/src/python/functions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 55b887b..40dea56 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -796,7 +796,7 @@ class RationalFunction:
 
     def parse(expr):
         s = sympy.parsing.sympy_parser.parse_expr(expr)
-        (num, den) = sympy.fraction(s)
+        (num, den) = sympy.fraction(sympy.together(s))
         r = RationalFunction([])
         r.num = num
         r.den = den
@@ -986,10 +986,15 @@ class RationalFunction:
         return []
 
     def roots(self, interval):
-        f = self.num / self.den
+        # Roots of P/Q are the roots of P
+        f = self.num
         if f.is_constant():
             return []
-        return [r for r in sympy.real_roots(f) if interval.contains(r)]
+        return [
+            SympyHelper.to_frac(r)
+            for r in sympy.real_roots(f)
+            if interval.contains(r)
+        ]
 
     # Compute the maximum over an interval of type Interval
     def maximise(self, interval):
-- 
2.43.0


From 37de90dcd31094188c91d0570939ad261d2ed5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 17/66] fix: RationalFunction.min/max lost crossings whose
 closed form sympy cannot recognise as real

---
 blueprint/src/python/functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 40dea56..d155e76 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -826,8 +826,7 @@ class RationalFunction:
 
             new_best_bound = []
             for (func2, in2, ref2) in best_bound:
-                solns = sympy.solve(func1.num / func1.den - func2.num / func2.den)
-                crits = set(SympyHelper.to_frac(soln) for soln in solns if soln.is_real)
+                crits = set(func1.intersections(func2, in2))
                 crits.update([in1.x0, in1.x1])
                 crits = set(c for c in crits if in2.contains(c))
                 crits.update([in2.x0, in2.x1])
-- 
2.43.0


From 2b62c057b79d9cd501a058a5888939bc1f06fe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 18/66] fix: printing polynomials with zero coefficients

---
 blueprint/src/python/functions.py  | 4 ++++
 blueprint/src/python/polynomial.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index d155e76..a953a0f 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -706,6 +706,10 @@ class RationalFunction2:
         s = []
         front = True
         for c in coeffs:
+            # Zero terms are not printed
+            if c == 0:
+                deg -= 1
+                continue
             if front: 
                 if c < 0: s.append("-")
             else:
diff --git a/blueprint/src/python/polynomial.py b/blueprint/src/python/polynomial.py
index 94ae330..8bd433a 100644
--- a/blueprint/src/python/polynomial.py
+++ b/blueprint/src/python/polynomial.py
@@ -41,6 +41,10 @@ class Polynomial:
         s = []
         front = True
         for c in self.coefficients:
+            # Zero terms are not printed
+            if c == 0:
+                deg += 1
+                continue
             if front: 
                 if c < 0: s.append("-")
             else:
-- 
2.43.0


From 85a4e6186e1af2bce4eef9671e0d171704ae14ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 19/66] fix: Polynomial.divide and RationalFunction2 from a
 list of coefficients raised errors

---
 blueprint/src/python/functions.py  | 2 +-
 blueprint/src/python/polynomial.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index a953a0f..a012f39 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -671,7 +671,7 @@ class RationalFunction2:
         if len(coeffs) == 0:
             raise ValueError("Parameter coeffs must have at least 1 element")
 
-        if len(coeffs) == 1:
+        if all(isinstance(c, numbers.Number) for c in coeffs):
             self._num_coeffs = tuple(coeffs)
             self._den_coeffs = tuple([1])
         else:
diff --git a/blueprint/src/python/polynomial.py b/blueprint/src/python/polynomial.py
index 8bd433a..64748b9 100644
--- a/blueprint/src/python/polynomial.py
+++ b/blueprint/src/python/polynomial.py
@@ -1,4 +1,4 @@
-from functions import RationalFunction2
+from functions import Interval, RationalFunction2
 
 # Basic univariate dense polynomial implementation with rational coefficients
 class Polynomial:
@@ -134,5 +134,8 @@ class Polynomial:
         if other.is_zero():
             raise ValueError("Division by zero")
 
-        # Returns 
-        return RationalFunction2(self, other)
\ No newline at end of file
+        # Coefficients of RationalFunction2 are ordered from highest degree to lowest
+        return RationalFunction2(
+            (self.coefficients[::-1], other.coefficients[::-1]),
+            Interval(float("-inf"), float("inf"), False, False),
+        )
\ No newline at end of file
-- 
2.43.0


From 2969e7ba3297a5b06c039586c1c17f76f1a58979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 20/66] fix: RationalFunction2 read the coefficient order
 backwards when testing for constants

---
 blueprint/src/python/functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index a012f39..575216b 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -685,7 +685,7 @@ class RationalFunction2:
         if self.is_zero(): 
             return f"0 on {self.domain}"
         if self.is_constant(): 
-            return f"{self._num_coeffs[0] / self._den_coeffs[0]} on {self.domain}"
+            return f"{frac(self._num_coeffs[-1]) / frac(self._den_coeffs[-1])} on {self.domain}"
 
         num = RationalFunction2._poly_str(self._num_coeffs, "x")
         den = RationalFunction2._poly_str(self._den_coeffs, "x")
@@ -735,12 +735,12 @@ class RationalFunction2:
         return all(c == 0 for c in self._num_coeffs)
 
     def is_constant(self):
-        return all(c == 0 for c in self._num_coeffs[1:]) and \
-                all(c == 0 for c in self._den_coeffs[1:])
+        return all(c == 0 for c in self._num_coeffs[:-1]) and \
+                all(c == 0 for c in self._den_coeffs[:-1])
 
     def is_affine(self):
-        return all(c == 0 for c in self._num_coeffs[2:]) and \
-                all(c == 0 for c in self._den_coeffs[1:])
+        return all(c == 0 for c in self._num_coeffs[:-2]) and \
+                all(c == 0 for c in self._den_coeffs[:-1])
 
     
 # Represents the univariate function P(x)/Q(x) where P, Q are polynomials. Currently
-- 
2.43.0


From 5fd52d251bcc9a5bc6e25cf4198d8d3930c2628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 21/66] fix: Constraint printing lost a leading minus sign and
 failed above four dimensions

---
 blueprint/src/python/polytope.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 96696f2..be2df6c 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -32,22 +32,9 @@ class Constraint:
         # Get symbols
         ch_set = list("xyzwu")
         if len(self.coefficients) > 5:
-            ch_set = [f"x_{i}" for i in range(1, len(self.coefficients) - 1)]
-
-        f = ""
-        if self.coefficients[0] != 0:
-            f += str(self.coefficients[0])
-        for i in range(1, len(self.coefficients)):
-            v = ch_set[i - 1]
-            c = self.coefficients[i]
-            if c == 0:
-                continue
-            if len(f) != 0:
-                f += " + " if c > 0 else " - "
-            if c == 1 or c == -1:
-                f += v
-            else:
-                f += str(abs(c)) + v
+            ch_set = [f"x_{i}" for i in range(1, len(self.coefficients))]
+
+        f = Str_Helper.format(self.coefficients, ch_set)
 
         if self.inequality_type == Constraint.GREATER_EQUALS:
             return f"{f} >= 0"
-- 
2.43.0


From 2edff8a4d8c8a7e465e7e1c4af9ffe4e296d915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 22/66] fix: the zero expression was printed as an empty string

---
 blueprint/src/python/helpers/str_helper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/helpers/str_helper.py b/blueprint/src/python/helpers/str_helper.py
index 305e7df..cffb9ab 100644
--- a/blueprint/src/python/helpers/str_helper.py
+++ b/blueprint/src/python/helpers/str_helper.py
@@ -32,5 +32,9 @@ class Str_Helper:
                 f += v
             else:
                 f += str(abs(c)) + v
+
+        # All coefficients are zero
+        if len(f) == 0:
+            return "0"
         return f
     
\ No newline at end of file
-- 
2.43.0


From 30ff27bfb94ea70e5a3d09a4baad294e7801f605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 23/66] fix: cached data of a Hypothesis_Set was shared between
 copies and survived invalidation

---
 blueprint/src/python/hypotheses.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/hypotheses.py b/blueprint/src/python/hypotheses.py
index b6bbd84..5e31f2f 100644
--- a/blueprint/src/python/hypotheses.py
+++ b/blueprint/src/python/hypotheses.py
@@ -140,7 +140,7 @@ class Hypothesis_Set:
     # Shallow copy, the hypothesis objects are not cloned
     def __copy__(self):
         copy = Hypothesis_Set(self.hypotheses)
-        copy.data = self.data
+        copy.data = dict(self.data)
         copy.data_valid = self.data_valid
         return copy
 
@@ -170,6 +170,7 @@ class Hypothesis_Set:
     def add_hypothesis(self, hypothesis, invalidate_data=True):
         self.hypotheses.add(hypothesis)
         if invalidate_data:
+            self.data = {}
             self.data_valid = False
 
     # Adds a set or list of hypotheses, an individual hypothesis, or a Hypothesis_Set
@@ -183,6 +184,7 @@ class Hypothesis_Set:
         else:
             self.hypotheses.update(new_hypotheses)
             if invalidate_data:
+                self.data = {}
                 self.data_valid = False
 
     # return all hypotheses of a given type, and (optionally) up to a given year.  Note: is now returning a Hypothesis_Set rather than a list
-- 
2.43.0


From 6c0e5b3f34f4c54f4b2d6f3c9cf84c540be4fd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 24/66] fix: the cached hulls of mu bounds and of exponent
 pairs overwrote each other

---
 blueprint/src/python/bound_mu.py      | 10 +++++-----
 blueprint/src/python/exponent_pair.py |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index 3084b19..5c7b5e2 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -171,7 +171,7 @@ def get_bounds(hypothesis_set):
 def compute_convex_hull(bounds, hypothesis_set):
     conv = ConvexHull(np.array([[b.data.sigma, b.data.mu] for b in bounds]))
     vertices = [bounds[v] for v in conv.vertices]
-    hypothesis_set.data["convex_hull"] = vertices
+    hypothesis_set.data["mu_convex_hull"] = vertices
     hypothesis_set.data_valid = True
 
 
@@ -187,7 +187,7 @@ def best_mu_bound(sigma, hypothesis_set):
 
     # Computed convex hull is stored within `hypothesis_list` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
-    if not hypothesis_set.data_valid or "convex_hull" not in hypothesis_set.data:
+    if not hypothesis_set.data_valid or "mu_convex_hull" not in hypothesis_set.data:
         # Generate set of bounds on mu implied by hypothesis set
         bounds = get_bounds(hypothesis_set)
         # The convex hull package requires us to provide at least 3 points, while some
@@ -197,7 +197,7 @@ def best_mu_bound(sigma, hypothesis_set):
         compute_convex_hull(pts, hypothesis_set)
 
     # The vertices are guaranteed to be in counterclockwise order for 2D hulls
-    verts = hypothesis_set.data["convex_hull"]
+    verts = hypothesis_set.data["mu_convex_hull"]
     for i in range(len(verts)):
         b1 = verts[i]
         b2 = verts[(i + 1) % len(verts)]
@@ -240,12 +240,12 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
 
     # Computed convex hull is stored within `hypothesis_set` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
-    if not hypothesis_set.data_valid or "convex_hull" not in hypothesis_set.data:
+    if not hypothesis_set.data_valid or "mu_convex_hull" not in hypothesis_set.data:
         bounds = get_bounds(hypothesis_set)
         compute_convex_hull(bounds, hypothesis_set)
 
     # The vertices are guaranteed to be in counterclockwise order for 2D hulls
-    verts = hypothesis_set.data["convex_hull"]
+    verts = hypothesis_set.data["mu_convex_hull"]
     mu_bounds = []
     for i in range(len(verts)):
         b1 = verts[i].data
diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index f7c57ec..a73680c 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -141,16 +141,16 @@ def compute_convex_hull(hypothesis_set: Hypothesis_Set) -> ConvexHull:
 
     # Computed convex hull is stored within `hypothesis_list` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
-    if not hypothesis_set.data_valid or "convex_hull" not in hypothesis_set.data:
+    if not hypothesis_set.data_valid or "exp_pair_convex_hull" not in hypothesis_set.data:
         if len(pairs) < 3:
-            hypothesis_set.data["convex_hull"] = list(pairs)
+            hypothesis_set.data["exp_pair_convex_hull"] = list(pairs)
         else:
             conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
             vertices = [pairs[v] for v in conv.vertices]
-            hypothesis_set.data["convex_hull"] = vertices
+            hypothesis_set.data["exp_pair_convex_hull"] = vertices
             hypothesis_set.data_valid = True
 
-    return hypothesis_set.data["convex_hull"]
+    return hypothesis_set.data["exp_pair_convex_hull"]
 
 def beta_bounds_to_exponent_pairs(
         hypothesis_set: Hypothesis_Set,
-- 
2.43.0


From b2aa92c4c69cf2879840d73894791e533525c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 25/66] fix: mu bounds to the left of the critical line were
 never reflected by the functional equation

---
 blueprint/src/python/bound_mu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index 5c7b5e2..c2dd20d 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -158,10 +158,10 @@ def get_bounds(hypothesis_set):
     bounds.extend(obtain_mu_bound_from_exponent_pair(p) for p in exp_pairs)
 
     # add bounds coming from the functional equation
-    for bound in bounds:
+    for bound in list(bounds):
         # mpmath does not currently support comparisons between Fraction and
-        # the mpf object, use this for now to determine whether sigma > 1/2
-        if 2 * bound.data.sigma > 1:
+        # the mpf object, use this for now to determine whether sigma != 1/2
+        if 2 * bound.data.sigma != 1:
             bounds.append(apply_functional_equation(bound))
     return bounds
 
-- 
2.43.0


From 2b72609d25f0af14bff9259db5a5277bbf2ef8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 26/66] fix: best_mu_bound_piecewise failed on the whole
 critical strip and without hypotheses

---
 blueprint/src/python/bound_mu.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index c2dd20d..e19af3d 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -169,6 +169,10 @@ def get_bounds(hypothesis_set):
 # Compute the 2-d convex hull containing all points (sigma, mu) implied
 # by mu bounds in 'bounds' list and saves it in the 'hypothesis_set' object.
 def compute_convex_hull(bounds, hypothesis_set):
+    # The convex hull package requires us to provide at least 3 points, while some
+    # hypothesis sets may only contain 2 points, so we include a placeholder point as
+    # a third point to account for this edge case.
+    bounds = bounds + [conjecture_bound_mu(1 / 2, 10, "Placeholder")]
     conv = ConvexHull(np.array([[b.data.sigma, b.data.mu] for b in bounds]))
     vertices = [bounds[v] for v in conv.vertices]
     hypothesis_set.data["mu_convex_hull"] = vertices
@@ -190,11 +194,7 @@ def best_mu_bound(sigma, hypothesis_set):
     if not hypothesis_set.data_valid or "mu_convex_hull" not in hypothesis_set.data:
         # Generate set of bounds on mu implied by hypothesis set
         bounds = get_bounds(hypothesis_set)
-        # The convex hull package requires us to provide at least 3 points, while some
-        # hypothesis sets may only contain 2 points, so we include a placeholder point as
-        # a third point to account for this edge case.
-        pts = [b for b in bounds] + [conjecture_bound_mu(1 / 2, 10, "Placeholder")]
-        compute_convex_hull(pts, hypothesis_set)
+        compute_convex_hull(bounds, hypothesis_set)
 
     # The vertices are guaranteed to be in counterclockwise order for 2D hulls
     verts = hypothesis_set.data["mu_convex_hull"]
@@ -250,10 +250,11 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
     for i in range(len(verts)):
         b1 = verts[i].data
         b2 = verts[(i + 1) % len(verts)].data
-        if b2.sigma < sigma0 or b1.sigma > sigma1: 
+        # Only the lower edges of the convex hull (for which b1.sigma < b2.sigma) are bounds
+        if b1.sigma >= b2.sigma or b2.sigma < sigma0 or b1.sigma > sigma1: 
             continue
         interval = Interval(max(sigma0, b1.sigma), min(sigma1, b2.sigma))
-        if b1.sigma < b2.sigma and not interval.is_empty():
+        if not interval.is_empty():
             mu_bounds.append(
                 Affine(
                     (b2.mu - b1.mu) / (b2.sigma - b1.sigma),
-- 
2.43.0


From 2cd0ad6bc75c828362d670fe59310f16a0c7f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 27/66] fix: best_mu_bound_piecewise on an interval outside the
 critical strip

---
 blueprint/src/python/bound_mu.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index e19af3d..d931e09 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -229,14 +229,20 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
 
     # deal with edge pieces
     if sigma0 < 0:
-        return [("-x + 1/2", sigma0, 0)] + best_mu_bound_piecewise(
+        left = [("-x + 1/2", sigma0, min(sigma1, 0))]
+        if sigma1 <= 0:
+            return left
+        return left + best_mu_bound_piecewise(
             Interval(0, sigma1, include_lower=True, include_upper=sigma_interval.include_upper),
             hypothesis_set
         )
     if sigma1 > 1:
+        right = [("0", max(sigma0, 1), sigma1)]
+        if sigma0 >= 1:
+            return right
         return best_mu_bound_piecewise(
             Interval(sigma0, 1, include_lower=sigma_interval.include_lower, include_upper=True),
-            hypothesis_set) + [("0", 1, sigma1)]
+            hypothesis_set) + right
 
     # Computed convex hull is stored within `hypothesis_set` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
-- 
2.43.0


From 947444b778c5074eed97e828d1e7a70db353474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 28/66] fix: compute_exp_pairs depended on the iteration order
 of the hypothesis set

---
 blueprint/src/python/exponent_pair.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index a73680c..3c4d8cf 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -98,7 +98,12 @@ def compute_exp_pairs(
         A list of exponent pairs implied by the hypothesis set. 
     """
     pairs = hypothesis_set.list_hypotheses("Exponent pair")
-    transforms = hypothesis_set.list_hypotheses("Exponent pair transform")
+    # Transforms are applied in a fixed order, since the iteration order of a set is not
+    # deterministic and pairs generated by one transform are passed on to the next one
+    transforms = sorted(
+        hypothesis_set.list_hypotheses("Exponent pair transform"),
+        key=lambda h: h.name,
+    )
 
     pairs = {(p.data.k, p.data.l): p for p in pairs}
     for i in range(search_depth):
-- 
2.43.0


From c6a510b7f41245208dd201d782663e06cf48c7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 29/66] fix: convex hull of exponent pairs lying on a single
 line

---
 blueprint/src/python/exponent_pair.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 3c4d8cf..659a075 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -25,6 +25,21 @@ class Exp_pair:
         return False
 
 
+# Returns those elements of a list of exponent pair hypotheses which are vertices of
+# the convex hull of the list
+def _hull_vertices(pairs):
+    pts = [(p.data.k, p.data.l) for p in pairs]
+    if len(pts) < 3:
+        return list(pairs)
+
+    # ConvexHull does not support points lying on a single line
+    a, b = min(pts), max(pts)
+    if all((b[0] - a[0]) * (p[1] - a[1]) == (b[1] - a[1]) * (p[0] - a[0]) for p in pts):
+        return [pairs[pts.index(p)] for p in ([a, b] if a != b else [a])]
+
+    conv = ConvexHull(np.array([[p[0], p[1]] for p in pts]))
+    return [pairs[v] for v in conv.vertices]
+
 ########################################################################################
 # Constructors for exponent pairs
 
@@ -118,8 +133,7 @@ def compute_exp_pairs(
             if len(pairs) < 3:
                 continue  # Don't prune if set is too small
             pairs = [p for p in pairs.values()]
-            conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
-            verts = [pairs[v] for v in conv.vertices]
+            verts = _hull_vertices(pairs)
             pairs = {(p.data.k, p.data.l): p for p in verts}
 
     return [p for p in pairs.values()]
@@ -147,13 +161,8 @@ def compute_convex_hull(hypothesis_set: Hypothesis_Set) -> ConvexHull:
     # Computed convex hull is stored within `hypothesis_list` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
     if not hypothesis_set.data_valid or "exp_pair_convex_hull" not in hypothesis_set.data:
-        if len(pairs) < 3:
-            hypothesis_set.data["exp_pair_convex_hull"] = list(pairs)
-        else:
-            conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
-            vertices = [pairs[v] for v in conv.vertices]
-            hypothesis_set.data["exp_pair_convex_hull"] = vertices
-            hypothesis_set.data_valid = True
+        hypothesis_set.data["exp_pair_convex_hull"] = _hull_vertices(pairs)
+        hypothesis_set.data_valid = True
 
     return hypothesis_set.data["exp_pair_convex_hull"]
 
-- 
2.43.0


From df32072fec444285cb1923009f29fb51e0825e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 30/66] fix: in_triangle for clockwise and for degenerate
 triangles

---
 blueprint/src/python/exponent_pair.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 659a075..5be451a 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -273,6 +273,11 @@ def in_triangle(a, b, c, p):
      d = ((b[1] - c[1])*(a[0] - c[0]) + (c[0] - b[0])*(a[1] - c[1]))
      x = ((b[1] - c[1])*(p[0] - c[0]) + (c[0] - b[0])*(p[1] - c[1]))
      y = ((c[1] - a[1])*(p[0] - c[0]) + (a[0] - c[0])*(p[1] - c[1]))
+     if d == 0:
+         return False # Degenerate triangle
+     # Handle both orientations of the triangle
+     if d < 0:
+         d, x, y = -d, -x, -y
      return 0 <= x and x <= d and 0 <= y and y <= d and x + y <= d
 
 def construct_proof(
-- 
2.43.0


From 844dfda893a41b1f4bbde72369c27d999ef43d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 31/66] fix: construct_proof when the known exponent pairs do
 not span a triangle

---
 blueprint/src/python/exponent_pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 5be451a..0dc9cdf 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -362,6 +362,10 @@ def construct_proof(
                 lowest_comp = comp
                 best_tri = tri
 
+    # The exponent pairs lie on a single line, so that there are no triangles
+    if best_tri is None:
+        best_tri = compute_convex_hull(hypotheses)
+
     proof = "Follows from convexity and the exponent pairs " + ", ".join(
             f"({v.data.k}, {v.data.l})" for v in best_tri)
     return derived_exp_pair(k, l, proof, set(best_tri))
-- 
2.43.0


From e212319327b025634f6f1e431815265f8b0c8b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 32/66] fix: find_best_proof without optimisation ignored the
 generated exponent pairs

---
 blueprint/src/python/exponent_pair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 0dc9cdf..2eda604 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -480,6 +480,6 @@ def find_best_proof(
         hyps = copy.copy(hypotheses)
         hyps.add_hypotheses(beta_bounds_to_exponent_pairs(hyps))
         hyps.add_hypotheses(compute_exp_pairs(hyps, prune=True))
-        return construct_proof(k, l, hypotheses, deep_search=False, reduce_dependencies=False)
+        return construct_proof(k, l, hyps, deep_search=False, reduce_dependencies=False)
     else:
         raise NotImplementedError()
-- 
2.43.0


From 6e80a4df62c0df6c4713a46ded1057d5f0cc57d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 33/66] fix: find_best_proof by date failed if a conjecture is
 assumed

---
 blueprint/src/python/exponent_pair.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 2eda604..28f7a1f 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -415,19 +415,15 @@ def find_best_proof(
     # Generate a proof of the exponent pair (k, l) by minimising the date of the
     # last dependency
     if method == Proof_Optimization_Method.DATE:
-        from_year = min(
+        # Conjectures have an infinite year, and are considered last
+        years = {
             h.reference.year()
             for h in hypotheses
             if h.reference.year() != "Unknown date"
-        )
-        to_year = max(
-            h.reference.year()
-            for h in hypotheses
-            if h.reference.year() != "Unknown date"
-        )
+        }
 
         num_hypotheses = 0
-        for year in range(from_year, to_year + 1):
+        for year in sorted(years):
             hyps = Hypothesis_Set(
                 h
                 for h in hypotheses
-- 
2.43.0


From efb9bfaaaa462a864e17ff7cd307f71bbc3aa114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 34/66] fix: compute_best_beta_bounds returned a single bound
 without restricting it to the domain

---
 blueprint/src/python/bound_beta.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/bound_beta.py b/blueprint/src/python/bound_beta.py
index 917f411..5348d63 100644
--- a/blueprint/src/python/bound_beta.py
+++ b/blueprint/src/python/bound_beta.py
@@ -132,7 +132,7 @@ def compute_best_beta_bounds(hypothesis_set, domain=None):
         domain = Interval(0, frac(1, 2), include_lower=True, include_upper=True)
 
     # handle edge cases
-    if len(bounds) < 2:
+    if len(bounds) == 0:
         return bounds
 
     # Create temporary deep copy of bounds to work with
@@ -143,8 +143,8 @@ def compute_best_beta_bounds(hypothesis_set, domain=None):
         bds[i].label = i
 
     # Iterate through all bounds
-    best_bounds = [bds[0]]
-    for i in range(1, len(bds)):
+    best_bounds = []
+    for i in range(len(bds)):
         best_bounds = bds[i].min_with(best_bounds, domain)
 
     # create temp dictionary for efficient lookup
-- 
2.43.0


From e464fe032ff96f0eb8b9377e512edb0c2e3fecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 35/66] fix: exponent pairs were derived from beta bounds that
 leave a gap

---
 blueprint/src/python/exponent_pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 28f7a1f..16175bc 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -199,6 +199,10 @@ def beta_bounds_to_exponent_pairs(
     if len(beta_bound) == 0 or (
         beta_bound[0].data.bound.domain.x0 > 0
         or beta_bound[-1].data.bound.domain.x1 < frac(1, 2)
+        or any(
+            beta_bound[i].data.bound.domain.x1 < beta_bound[i + 1].data.bound.domain.x0
+            for i in range(len(beta_bound) - 1)
+        )
     ):
         return []
 
-- 
2.43.0


From a947fa90631bb5cb7c0ea26e01825ee6b1bfb4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 36/66] fix: transforms of the exponent pair conjecture were
 computed in floating point

---
 blueprint/src/python/exponent_pair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 16175bc..4eda120 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -77,7 +77,7 @@ trivial_exp_pair = Hypothesis(
 exponent_pair_conjecture = Hypothesis(
     "Exponent pair conjecture",
     "Exponent pair",
-    Exp_pair(0, 0),
+    Exp_pair(frac(0), frac(0)),
     "Conjecture",
     Reference.conjectured(),
 )
-- 
2.43.0


From af91ce6cec7f771351124296c098f08a13b33159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 37/66] fix: a cell of Bourgain's large value estimate did not
 bound rho

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index d1ffe19..77d0cef 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -783,7 +783,7 @@ def add_bourgain_large_values_estimate():
             [1, -1, 0, 0]
         ]),
         Polytope([
-            [8, -12, frac(4,3), 0],     # ρ <= 8 - 12σ + 4τ/3
+            [8, -12, frac(4,3), -1],    # ρ <= 8 - 12σ + 4τ/3
             [0, 0, 0, 1],               # ρ >= 0
             [-frac(1,2), 1, 0, 0],      # σ >= 1/2
             [15, -21, 1, 0],
-- 
2.43.0


From 61466a47538cf90ce0f27b6be39327170a61fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 38/66] fix: lv_zlv_to_zd2 used the wrong domain for zeta large
 values

---
 blueprint/src/python/zero_density_estimate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 4d50b7f..991ddae 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -440,8 +440,8 @@ def lv_zlv_to_zd2(
         Region.from_polytope(
             Polytope([
                 [-2, 0, 1, 0], # tau >= 2
-                [frac(4,3) * tau0.c, frac(4,3) * tau0.m, 1, 0] # tau <= 4/3 * tau0
-            ])
+                [frac(4,3) * tau0.c, frac(4,3) * tau0.m, -1, 0] # tau <= 4/3 * tau0
+            ] + sigma_rho_constraints)
         ),
         zeta = True
     )
-- 
2.43.0


From b1b4ff5eddef05e7177cf5b35707a5a0d59d958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 39/66] fix: zero density estimates from ivic_ep_to_zd could
 not be evaluated

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 991ddae..5e9d3c1 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -552,7 +552,7 @@ def ivic_ep_to_zd(exp_pairs, m=2):
     sigma0 = max(sigma0, frac(9 * m * m - 4 * m + 2, 12 * m * m - 6 * m + 2))
     sigma0 = min(sigma0, frac(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2))
 
-    zde = Zero_Density_Estimate(f"{3*m}/({3*m-2}x + {2-m})", Interval(sigma0, 1))
+    zde = Zero_Density_Estimate(f"{3*m}/({3*m-2}*x + {2-m})", Interval(sigma0, 1))
     return derived_zero_density_estimate(
         zde, f"Follows from {dep.data}", {dep}
     )
-- 
2.43.0


From 2c4b0b9965e4f44ea062026efeec17d15e91fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 40/66] fix: ep_to_zd passed an argument that bourgain_ep_to_zd
 does not take

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 5e9d3c1..65657f2 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -725,7 +725,7 @@ def ep_to_zd(hypotheses):
     hypotheses.add_hypotheses(ep.compute_best_beta_bounds(hypotheses))
     ephs = ep.beta_bounds_to_exponent_pairs(hypotheses)
 
-    return bourgain_ep_to_zd(ephs) + [ivic_ep_to_zd(ephs, m=2)]
+    return bourgain_ep_to_zd() + [ivic_ep_to_zd(ephs, m=2)]
 
 # Given a list of tuples (RationalFunction, interval),
 # returns a simplified list of tuples representing the same piecewise defined
-- 
2.43.0


From c65835e0eec5d8b7b50602642dcaeb0602c6366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 41/66] fix: zero density estimates derived from large values
 bounded A(sigma)(1 - sigma) instead of A(sigma)

---
 blueprint/src/python/derived.py               |  2 +-
 blueprint/src/python/zero_density_estimate.py | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/derived.py b/blueprint/src/python/derived.py
index 5993e14..b4c9451 100644
--- a/blueprint/src/python/derived.py
+++ b/blueprint/src/python/derived.py
@@ -352,7 +352,7 @@ def prove_zero_density(
         for x in xs:
             zs = [z for z in zdes if z.data.interval.contains(x)]
             if len(zs) > 0:
-                ys.append(min(z.data.at(x) / (1 - x) for z in zs))
+                ys.append(min(z.data.at(x) for z in zs))
             else:
                 ys.append(None)
         plt.plot(xs, ys)
diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 65657f2..ecf707d 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -380,7 +380,8 @@ def lv_zlv_to_zd(
                 f'τ in [{tau0},{2 * tau0}]) and zeta large value estimates (for σ in {sigma_interval}, τ in [{2},{tau0}])'
         deps = {lvr, zlvr}
         hyps.append(derived_zero_density_estimate(
-            Zero_Density_Estimate.from_rational_func(s[0], s[1]),
+            # The supremum is a bound on A(sigma)(1 - sigma)
+            Zero_Density_Estimate.from_rational_func(s[0] / RF([-1, 1]), s[1]),
             proof,
             deps
         ))
@@ -458,7 +459,8 @@ def lv_zlv_to_zd2(
                 f"value estimates with τ0 = {tau0.to_str('σ')})"
         deps = {lvr, zlvr}
         hyps.append(derived_zero_density_estimate(
-            Zero_Density_Estimate.from_rational_func(s[0], s[1]),
+            # The supremum is a bound on A(sigma)(1 - sigma)
+            Zero_Density_Estimate.from_rational_func(s[0] / RF([-1, 1]), s[1]),
             proof,
             deps
         ))
@@ -519,9 +521,10 @@ def lver_to_zd(LVER, LVER_zeta, sigma_interval):
 
     return [
         derived_zero_density_estimate(
-            Zero_Density_Estimate.from_rational_func(s[0], s[1]),
+            # The supremum is a bound on A(sigma)(1 - sigma)
+            Zero_Density_Estimate.from_rational_func(s[0] / RF([-1, 1]), s[1]),
             f"Follows from combining {depcount[0]} large value energy regions " + \
-            "and {depcount[1]} zeta large value energy regions",
+            f"and {depcount[1]} zeta large value energy regions",
             deps
         )
         for s in sup
-- 
2.43.0


From f54638b17bd05d352fd485d4c2ab52d6d2b8cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 42/66] fix: computing zero density estimates added derived
 hypotheses to the caller's set

---
 blueprint/src/python/zero_density_estimate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index ecf707d..d748bc6 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -359,6 +359,7 @@ def lv_zlv_to_zd(
     sup1 = compute_sup_rho_on_tau([r.child for r in lvr.data.region.child], sigma_interval)
 
     # Get zeta large value bounds in the interval 2 <= tau <= tau0
+    hypotheses = copy.copy(hypotheses) # Do not modify the original set
     hypotheses.add_hypotheses(zlv.compute_large_value_estimate(hypotheses))
     zlvr = compute_large_value_region(
         hypotheses,
@@ -435,6 +436,7 @@ def lv_zlv_to_zd2(
     sup1 = compute_sup_rho_on_tau([r.child for r in lvr.data.region.child], sigma_interval)
 
     # Get zeta large value bounds in the interval 2 <= tau <= 4/3 tau0
+    hypotheses = copy.copy(hypotheses) # Do not modify the original set
     hypotheses.add_hypotheses(zlv.compute_large_value_estimate(hypotheses))
     zlvr = compute_large_value_region(
         hypotheses,
@@ -720,6 +722,8 @@ def bourgain_ep_to_zd():
 # Compute all zero-density estimates derived from exponent pairs
 def ep_to_zd(hypotheses):
 
+    hypotheses = copy.copy(hypotheses) # Do not modify the original set
+
     # TODO: this routine is used quite often, should we roll it into a separate method?
     hypotheses.add_hypotheses(
         ep.compute_exp_pairs(hypotheses, search_depth=5, prune=True)
-- 
2.43.0


From b3a0b98af03bda852c4d38e135a136b946f47f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 43/66] fix: get_trivial_zlv raised an error

---
 blueprint/src/python/zeta_large_values.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/zeta_large_values.py b/blueprint/src/python/zeta_large_values.py
index 6d4f6dc..e323a54 100644
--- a/blueprint/src/python/zeta_large_values.py
+++ b/blueprint/src/python/zeta_large_values.py
@@ -18,16 +18,20 @@ def get_trivial_zlv():
     # Trivial estimate
     domain = Polytope(
         [
-            [-frac(1, 2), 1, 0],  # \sigma > 1/2
-            [1, -1, 0],  # \sigma <= 1
-            [-2, 0, 1],  # \tau >= 2
-            [Constants.TAU_UPPER_LIMIT, 0, -1],  # \tau <= some large number
+            [-frac(1, 2), 1, 0, 0],  # \sigma > 1/2
+            [1, -1, 0, 0],  # \sigma <= 1
+            [-2, 0, 1, 0],  # \tau >= 2
+            [Constants.TAU_UPPER_LIMIT, 0, -1, 0],  # \tau <= some large number
+            [0, 0, 0, 1],  # \rho >= 0
+            [0, 0, 1, -1],  # \rho <= \tau
         ]
     )
     trivial = Hypothesis(
         "Trivial zeta large value estimate",
         "Zeta large value estimate",
-        lv.Large_Value_Estimate(Piecewise([Affine2([0, 0, 1], domain)])),
+        lv.Large_Value_Estimate(
+            Region.disjoint_union([Region.from_polytope(domain)])
+        ),
         "Trivial",
         Reference.trivial(),
     )
-- 
2.43.0


From cc7617914cb575628ce0d41658af45fbb3d1a226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 44/66] fix: dependency tracking of region intersections lost
 the sources that rule out discarded pieces

---
 blueprint/src/python/region.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 134557e..60e577c 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -374,15 +374,21 @@ class Region:
                 #     continue
                 
                 new_A = []
+                # The pieces of A (resp. B) which are not kept as a whole
+                cut_A = False
+                cut_B = set(range(len(B)))
                 for p in A:
                     inters = []
-                    for q in B:
+                    cut_p = True
+                    for j, q in enumerate(B):
                         # [[Ad-hoc performance optimisation]] - take care of easy cases
                         # first, which tend to occur frequently in practice
                         if p.is_subset_of(q):
                             inters.append(p)
+                            cut_p = False
                         elif q.is_subset_of(p):
                             inters.append(q)
+                            cut_B.discard(j)
                         else:
                             inter = p.intersect(q)
                             if not inter.is_empty(include_boundary=False):
@@ -390,6 +396,8 @@ class Region:
                                     inter.dependencies = p.dependencies | q.dependencies
                                 inters.append(inter)
 
+                    cut_A = cut_A or cut_p
+
                     # [[Ad-hoc performance optimisation]] - frequently in practice p is a 
                     # subset of B, so it is a good candidate for merging
                     if 2 <= len(inters) and len(inters) <= UNION_THRESHOLD:
@@ -406,7 +414,15 @@ class Region:
                     # being tracked) will propagate automatically
                     new_A.extend(inters)
 
-                
+                # The parts of A that are discarded are ruled out by the whole of B (and 
+                # vice versa), which is a dependency even if no remaining piece involves
+                # the relevant pieces of B. 
+                if track_dependencies and cut_A:
+                    deps = set().union(*(q.dependencies for q in B))
+                    if len(cut_B) > 0:
+                        deps = deps.union(*(p.dependencies for p in A))
+                    for p in new_A: p.dependencies = p.dependencies | deps
+
                 # [[Ad-hoc performance optimisation]]
                 # Every few rounds, simplify if the number of polytopes is too large
                 if (i % SIMPLIFY_EVERY == 0 and len(new_A) >= 100):
-- 
2.43.0


From 763318f6bec77b4f1ddf540fdd7ceaa7633193f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 45/66] fix: an empty large value region cited nothing

---
 blueprint/src/python/zero_density_estimate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index d748bc6..5d5d3c8 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -203,6 +203,7 @@ def compute_large_value_region(
     # 2) We may copy region objects so that any labelling does not affect the
     # Polytopes in the original hypotheses
     regions = []
+    labels = set()
     uniq_hash = set()
     for i in range(len(hyps)):
         r = Region.intersect([domain, hyps[i].data.region])
@@ -216,6 +217,7 @@ def compute_large_value_region(
         # Create a copy of the current region object, then set label
         r = copy.copy(r)
         r.set_label(i)
+        labels.add(i)
         regions.append(r)
 
     # Compute the large value energy bounding region
@@ -227,6 +229,9 @@ def compute_large_value_region(
     deps = set()
     for r in LV_region.child:
         deps = deps | r.child.dependencies
+    if len(LV_region.child) == 0:
+        # No pieces to carry the labels - the region is ruled out by all the estimates
+        deps = labels
     deps = set(hyps[d] for d in deps if d >= 0)
 
     # Construct hypothesis object and return
-- 
2.43.0


From 41e7314554fe802c503761190d36241fa2a8f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 46/66] fix: compute_large_value_region failed for a set
 without large value estimates

---
 blueprint/src/python/zero_density_estimate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 5d5d3c8..b45174e 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -222,6 +222,11 @@ def compute_large_value_region(
 
     # Compute the large value energy bounding region
     # LV_region = Region(Region_Type.INTERSECT, [domain] + [h.data.region for h in hyps])
+    if len(regions) == 0:
+        # There are no estimates - everything in the domain is feasible
+        r = copy.copy(domain)
+        r.set_label(-1)
+        regions.append(r)
     LV_region = Region.intersect(regions)
     LV_region = LV_region.as_disjoint_union(verbose=debug, track_dependencies=True)
 
-- 
2.43.0


From 53a3b01eab9e03720803b344f1a4584358a6c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 47/66] fix: RationalFunction.min/max with estimates that are
 not rational (square roots) raised an error

---
 blueprint/src/python/functions.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 575216b..a7c05d4 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -955,6 +955,14 @@ class RationalFunction:
             return r
         raise NotImplementedError()
 
+    # Real roots of an expression in x. Expressions that are not polynomials with rational
+    # coefficients (e.g. those containing square roots) are solved symbolically
+    def _real_roots(f):
+        try:
+            return sympy.real_roots(f)
+        except (sympy.PolynomialError, NotImplementedError):
+            return [r for r in sympy.solve(f, RationalFunction.x) if r.is_real]
+
     # find all critical points
     # TODO: cache the critical points
     def _compute_critical_pts(self, interval):
@@ -969,7 +977,7 @@ class RationalFunction:
         if not df.is_constant():
             crit.extend(
                 SympyHelper.to_frac(r)
-                for r in sympy.real_roots(df)
+                for r in RationalFunction._real_roots(df)
                 if interval.contains(r)
             )
 
@@ -983,7 +991,7 @@ class RationalFunction:
         if not f.is_constant():
             return [
                 SympyHelper.to_frac(r)
-                for r in sympy.real_roots(f)
+                for r in RationalFunction._real_roots(f)
                 if interval.contains(r)
             ]
         return []
@@ -995,7 +1003,7 @@ class RationalFunction:
             return []
         return [
             SympyHelper.to_frac(r)
-            for r in sympy.real_roots(f)
+            for r in RationalFunction._real_roots(f)
             if interval.contains(r)
         ]
 
-- 
2.43.0


From 68066d69f0bbca652b3b0912f904181e2c6d9c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 48/66] fix: compute_gap2 failed when a zero density estimate
 vanishes at an end of its interval

---
 blueprint/src/python/prime_gap.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/prime_gap.py b/blueprint/src/python/prime_gap.py
index 24fe028..0dc8698 100644
--- a/blueprint/src/python/prime_gap.py
+++ b/blueprint/src/python/prime_gap.py
@@ -7,6 +7,14 @@ import zero_density_estimate as zd
 import zero_density_energy_estimate as ze
 import sympy
 
+# Value of a sympy expression f(x) at a point p of an interval, taking the one-sided limit 
+# from inside the interval if p is an endpoint at which f is not defined
+def _value_at(f, x, p, interval):
+    v = f.subs(x, p)
+    if not v.is_finite:
+        v = sympy.limit(f, x, p, "+" if p == interval.x0 else "-")
+    return float(v)
+
 # Compute the best estimate of \theta_{gap, 2} using Corollary 13.9
 def compute_gap2(hypotheses, debug=False):
     if not isinstance(hypotheses, Hypothesis_Set):
@@ -50,7 +58,7 @@ def compute_gap2(hypotheses, debug=False):
         statpts = sympy.solve(sympy.diff(alpha, x))
         statpts = set(p for p in statpts if p.is_real and interval.contains(p))
         statpts.update([interval.x0, interval.x1])
-        sup_alpha = max(float(alpha.subs(x, p)) for p in statpts)
+        sup_alpha = max(_value_at(alpha, x, p, interval) for p in statpts)
         if debug:
             print("alpha -------------------------------------------------")
             for p in statpts:
@@ -60,7 +68,7 @@ def compute_gap2(hypotheses, debug=False):
         statpts = sympy.solve(sympy.diff(beta, x))
         statpts = set(p for p in statpts if p.is_real and interval.contains(p))
         statpts.update([interval.x0, interval.x1])
-        sup_beta = max(float(beta.subs(x, p)) for p in statpts)
+        sup_beta = max(_value_at(beta, x, p, interval) for p in statpts)
         if debug:
             print("beta --------------------------------------------------")
             for p in statpts:
-- 
2.43.0


From 088b3e5f8923d4d482484b6e9876373ed2282b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 49/66] fix: projecting a union with one non-empty cell did not
 give a union, breaking energy bounds from one-cell regions

---
 blueprint/src/python/region.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 60e577c..aee1afa 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -233,7 +233,6 @@ class Region:
             ps = [c.project(dims) for c in self.child]
             ps = [p for p in ps if p is not None]
             if len(ps) == 0: return None
-            if len(ps) == 1: return ps[0]
             return Region(Region_Type.UNION, ps)
         
         if self.region_type == Region_Type.INTERSECT:
-- 
2.43.0


From 82450282fff11da618886ea4ed919ddc699552b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 50/66] fix: trivial energy estimates of computed zero density
 estimates could not be evaluated, and did not cite them

---
 blueprint/src/python/zero_density_energy_estimate.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index e49d2a4..86191dc 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -155,11 +155,13 @@ def add_trivial_zero_density_energy_estimates(hypotheses: Hypothesis_Set):
     # add zero density energy estimates arising from A(sigma)
     zdes = hypotheses.list_hypotheses(hypothesis_type="Zero density estimate")
     for zde in zdes:
-        hypotheses.add_hypothesis(
-            trivial_zero_density_energy_estimate(
-                Zero_Density_Energy_Estimate(f"3 * ({zde.data.expr})", zde.data.interval)
-            )
-        )
+        data = Zero_Density_Energy_Estimate(f"3 * ({zde.data.expr})", zde.data.interval)
+        # If already computed, use the bound itself (in that case expr is only for display)
+        if zde.data.bound is not None:
+            data.bound = zde.data.bound.mul(3)
+        bound = trivial_zero_density_energy_estimate(data)
+        bound.dependencies = {zde}
+        hypotheses.add_hypothesis(bound)
     
     # add zero density energy estimates arising from A*(1/2) = 6 and non-increasingness
     # of (1 - \sigma) A*(\sigma), which implies A*(\sigma) \leq 3/(1-\sigma) for \sigma
-- 
2.43.0


From 953a991728e49c46fc987a852370fe7c133cf59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:57 +0000
Subject: [PATCH 51/66] fix: lver_to_lv and lver_to_zd raised an error on empty
 regions

---
 blueprint/src/python/additive_energy.py       |  4 ++++
 blueprint/src/python/zero_density_estimate.py | 16 ++++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/blueprint/src/python/additive_energy.py b/blueprint/src/python/additive_energy.py
index d2dfd2a..5b1fa2b 100644
--- a/blueprint/src/python/additive_energy.py
+++ b/blueprint/src/python/additive_energy.py
@@ -398,6 +398,10 @@ def lver_to_lv(hypothesis: Hypothesis) -> Hypothesis:
 
     # Project onto the dimensions (sigma, tau, rho)
     proj = region.project({0, 1, 2})
+
+    # Handle empty projections 
+    if proj is None: return None
+
     proj.simplify()
 
     # Pack into Hypothesis object
diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index b45174e..1bc3cb9 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -510,18 +510,22 @@ def lver_to_zd(LVER, LVER_zeta, sigma_interval):
     if LVER is not None:
         # Project (sigma, tau, rho, rho*, s) -> (sigma, tau, rho)
         proj = LVER.data.region.project({0, 1, 2})
-        proj.simplify()
-        sup1 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
-        fns.extend(list(sup1))
+        # Handle empty projections
+        if proj is not None:
+            proj.simplify()
+            sup1 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
+            fns.extend(list(sup1))
         deps.update(list(LVER.dependencies))
         depcount[0] = len(LVER.dependencies)
 
     if LVER_zeta is not None:
         # Project (sigma, tau, rho, rho*, s) -> (sigma, tau, rho)
         proj = LVER_zeta.data.region.project({0, 1, 2})
-        proj.simplify()
-        sup2 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
-        fns.extend(list(sup2))
+        # Handle empty projections
+        if proj is not None:
+            proj.simplify()
+            sup2 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
+            fns.extend(list(sup2))
         deps.update(list(LVER_zeta.dependencies))
         depcount[1] = len(LVER_zeta.dependencies)
 
-- 
2.43.0


From 2157a29173600e93e39bc096e7d40de3d378d153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 52/66] fix: best zero density (energy) tables dropped the
 dependencies of the estimates, and mistyped the energy placeholder

---
 blueprint/src/python/zero_density_energy_estimate.py | 12 ++++++------
 blueprint/src/python/zero_density_estimate.py        |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index 86191dc..84513e8 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -347,16 +347,16 @@ def compute_best_energy_bound(hypotheses: Hypothesis_Set) -> list:
         if ref < 0:
             best_bound.append(
                 Hypothesis(
-                    "Placeholder zero density estimate",
-                    "Zero density estimate",
+                    "Placeholder zero density energy estimate",
+                    "Zero density energy estimate",
                     zde,
-                    "Placeholder zero density estimate",
+                    "Placeholder zero density energy estimate",
                     Reference.trivial(),
                 )
             )
         else:
             h = hs[ref]
-            best_bound.append(
-                Hypothesis(h.name, h.hypothesis_type, zde, h.proof, h.reference)
-            )
+            bound = Hypothesis(h.name, h.hypothesis_type, zde, h.proof, h.reference)
+            bound.dependencies = set(h.dependencies)
+            best_bound.append(bound)
     return best_bound
diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 1bc3cb9..8cd065b 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -804,9 +804,9 @@ def best_zero_density_estimate(hypotheses, verbose=False):
             )
         else:
             h = hs[ref]
-            best_bound.append(
-                Hypothesis(h.name, h.hypothesis_type, zde, h.proof, h.reference)
-            )
+            bound = Hypothesis(h.name, h.hypothesis_type, zde, h.proof, h.reference)
+            bound.dependencies = set(h.dependencies)
+            best_bound.append(bound)
 
     if verbose:
         for b in best_bound:
-- 
2.43.0


From aa9a17ae48600ca749ebb77b16ecc0088c443596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 53/66] fix: Reference_Manager.find_all failed on entries
 without an author or a year

---
 blueprint/src/python/reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index a4ab596..b2ef23d 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -93,8 +93,8 @@ class Reference_Manager:
         refs = []
         for k in self.refs:
             ref = self.refs[k]
-            if (author == "Any" or author in ref.entries["author"]) and (
-                year == "Any" or ref.entries["year"] == year
+            if (author == "Any" or author in ref.entries.get("author", "")) and (
+                year == "Any" or ref.entries.get("year") == year
             ):
                 refs.append(ref)
         return refs
-- 
2.43.0


From 83b15f6f195d87dc3ce12bcb93affe2ec9715d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:39 +0000
Subject: [PATCH 54/66] fix: bibliography fields that are bare or quoted values
 were dropped or cut short

---
 blueprint/src/python/reference.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index b2ef23d..b045039 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -121,15 +121,28 @@ class Reference_Manager:
                 level += 1
         return "".join(chs)
 
-    # Split by delimiter, but only when it is nested 'level' deep
+    # Removes the delimiters of a field value, which is either {value}, "value" or a
+    # bare number or macro
+    def _extract_value(self, value):
+        if len(value) >= 2 and value[0] == '"' and value[-1] == '"':
+            value = value[1:-1].strip()
+        # Remove the outermost pair of braces, if it encloses the whole value
+        if self._split_level(value, "{", "}", "}", 0)[:1] == [value[:-1]] and value[0] == "{":
+            value = value[1:-1]
+        return value
+
+    # Split by delimiter, but only when it is nested 'level' deep (and not quoted)
     def _split_level(self, item, open_brace, close_brace, delim, level):
         split = []  # contains all words
         chs = []  # current word
         l = 0
+        quoted = False
         for c in item:
             if c == close_brace:
                 l -= 1
-            if l == level and c == delim:
+            if l == level and c == '"':
+                quoted = not quoted
+            if l == level and c == delim and not quoted:
                 if len(chs) > 0:
                     split.append("".join(chs))
                     chs.clear()
@@ -158,7 +171,7 @@ class Reference_Manager:
     # Parses a string representing a reference item, returns as a Reference object
     def _parse(self, item):
 
-        typ = item.split("{")[0].lower()
+        typ = item.split("{")[0].strip().lower()
         ref = self._extract(item, "{", "}")
         entries = self._split_level(ref, "{", "}", ",", 0)
         label = entries[0].strip()
@@ -171,7 +184,7 @@ class Reference_Manager:
             kvp = self._split_level(e, "{", "}", "=", 0)
             if len(kvp) >= 2:
                 key = kvp[0].strip().lower()
-                value = self._extract(kvp[1].strip(), "{", "}")
+                value = self._extract_value(kvp[1].strip())
                 if len(key) == 0 or len(value) == 0:
                     continue
                 if key == "year":
-- 
2.43.0


From d695130f6eb07c9903529f3eae0ec811e42c587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 55/66] fix: exponent pairs derived from beta bounds did not
 cite the bounds below the convex hull

---
 blueprint/src/python/exponent_pair.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 4eda120..9b4cf21 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -216,19 +216,10 @@ def beta_bounds_to_exponent_pairs(
     # Compute the convex hull containing the \beta bounds
     conv = ConvexHull(np.array(points))
 
-    # Precompute the dependencies. Currently every beta bound that is on the boundary
-    # of the convex hull is included in the dependencies for every exponent pair
-    dep_indices = set()
-    for v in conv.vertices:
-        if v >= 2:  # skip the placeholder vertices:
-            p = points[v]
-            for i in range(len(beta_bound)):
-                f = beta_bound[i].data.bound
-                if (f.domain.x0 == p[0] and f.at(p[0], extend_domain=True) == p[1]) or (
-                    f.domain.x1 == p[0] and f.at(p[0], extend_domain=True) == p[1]
-                ):
-                    dep_indices.add(i)
-    dependencies = [beta_bound[i] for i in dep_indices]
+    # Every beta bound is included in the dependencies for every exponent pair, since an 
+    # exponent pair requires a bound on all of [0, 1/2] (including those bounds which are 
+    # not on the boundary of the convex hull)
+    dependencies = list(beta_bound)
     # Keep track of the existing set of exponent pairs,
     known_ephs = hypothesis_set.list_hypotheses("Exponent pair")
     known_eps = {(p.data.k, p.data.l):p for p in known_ephs}
-- 
2.43.0


From 1d8c8574ca6362e1eb9d4398536fd0cdff3d5142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:35 +0000
Subject: [PATCH 56/66] fix: vertices with integral coordinates made suprema
 over polytopes inexact

---
 blueprint/src/python/polytope.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index be2df6c..b66894b 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -356,8 +356,11 @@ class Polytope:
     # Computes the V representation of this polytope
     def compute_V_rep(self):
         v = self.polyhedron.get_generators()
-        self.vertices = [r[1:] for r in v if r[0] == 1]  # unpack matrix output
-        self.rays = [r[1:] for r in v if r[0] == 0]
+        # unpack matrix output (integral coordinates are given as int - convert them
+        # so that arithmetic on coordinates, in particular division, is always exact)
+        v = [[frac(x) for x in r] for r in v]
+        self.vertices = [tuple(r[1:]) for r in v if r[0] == 1]
+        self.rays = [tuple(r[1:]) for r in v if r[0] == 0]
 
     # Returns the vertices of this polytope
     def get_vertices(self):
-- 
2.43.0


From 1ea85ec1669e335189ff841fd5c8db2f40afe4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 57/66] fix: Bourgain zero density estimate included its pole
 at the end of the range

---
 blueprint/src/python/zero_density_estimate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 8cd065b..883ec7a 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -666,7 +666,7 @@ def bourgain_ep_to_zd():
                 if s0 >= 1:
                     continue
                 bounds.append(
-                    (RF([4 * k], [2 * (1 + k), -1 - l]), Interval(s0, 1), h)
+                    (RF([4 * k], [2 * (1 + k), -1 - l]), Interval(s0, 1, False, False), h)
                 )
             else:
                 s0 = max(
@@ -677,7 +677,7 @@ def bourgain_ep_to_zd():
                 if s0 >= 1:
                     continue
                 bounds.append(
-                    (RF([4 * k], [2 * (1 + k), -1 - l]), Interval(s0, 1), h)
+                    (RF([4 * k], [2 * (1 + k), -1 - l]), Interval(s0, 1, False, False), h)
                 )
 
     crits = set()
@@ -711,6 +711,8 @@ def bourgain_ep_to_zd():
             if q < sup:
                 sup = q
                 argmax = b
+        # The bound holds for s > s0 only (s0 may be a pole)
+        interval.include_lower = argmax[1].contains(s1)
         soln.append((argmax[0], interval, argmax[2]))
 
     # Simplify ranges by merging neighbouring intervals
-- 
2.43.0


From d92a36a9236cfdc55a98e2fb64d5826373747943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 58/66] fix: energy estimates following from an empty energy
 region cited nothing

---
 blueprint/src/python/zero_density_energy_estimate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index 84513e8..c32bac2 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -219,6 +219,9 @@ def lver_to_energy_bound(
         if debug:
             for s in sup:
                 print(s)
+    else:
+        # The regions together rule out everything in the domain
+        deps.add(lver)
     
     # domain representing 2 <= tau <= tau0
     LVER_zeta_domain = Region.from_polytope(
@@ -238,6 +241,8 @@ def lver_to_energy_bound(
         if debug:
             for s in sup:
                 print(s)
+    else:
+        deps.add(zlver)
     
     # Take maximum
     bounds = [(f[0], f[1]) for f in fns]
-- 
2.43.0


From b6c225a3a4ca9ddcd141d2d3b368ff816321fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:49 +0000
Subject: [PATCH 59/66] fix: prime gap computation missed stationary points
 without a real radical form

---
 blueprint/src/python/prime_gap.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/blueprint/src/python/prime_gap.py b/blueprint/src/python/prime_gap.py
index 0dc8698..1a25865 100644
--- a/blueprint/src/python/prime_gap.py
+++ b/blueprint/src/python/prime_gap.py
@@ -15,6 +15,14 @@ def _value_at(f, x, p, interval):
         v = sympy.limit(f, x, p, "+" if p == interval.x0 else "-")
     return float(v)
 
+# All stationary points of a rational sympy expression f(x) in an interval. Since some of them
+# may have no (real) expression in terms of radicals, a numerical value is returned 
+def _stationary_points(f, x, interval):
+    df = sympy.fraction(sympy.cancel(sympy.diff(f, x)))[0]
+    if df.is_constant():
+        return []
+    return [sympy.N(p, 30) for p in RF._real_roots(df) if interval.contains(p)]
+
 # Compute the best estimate of \theta_{gap, 2} using Corollary 13.9
 def compute_gap2(hypotheses, debug=False):
     if not isinstance(hypotheses, Hypothesis_Set):
@@ -55,9 +63,7 @@ def compute_gap2(hypotheses, debug=False):
         beta = 4 * x - 2 + (B * (1 - x) - 1) / A
 
         # Find all critical points and evaluate alpha at each 
-        statpts = sympy.solve(sympy.diff(alpha, x))
-        statpts = set(p for p in statpts if p.is_real and interval.contains(p))
-        statpts.update([interval.x0, interval.x1])
+        statpts = _stationary_points(alpha, x, interval) + [interval.x0, interval.x1]
         sup_alpha = max(_value_at(alpha, x, p, interval) for p in statpts)
         if debug:
             print("alpha -------------------------------------------------")
@@ -65,9 +71,7 @@ def compute_gap2(hypotheses, debug=False):
                 print(p, float(p), alpha.subs(x, p), float(alpha.subs(x, p)))
         
         # Do the same for beta
-        statpts = sympy.solve(sympy.diff(beta, x))
-        statpts = set(p for p in statpts if p.is_real and interval.contains(p))
-        statpts.update([interval.x0, interval.x1])
+        statpts = _stationary_points(beta, x, interval) + [interval.x0, interval.x1]
         sup_beta = max(_value_at(beta, x, p, interval) for p in statpts)
         if debug:
             print("beta --------------------------------------------------")
-- 
2.43.0


From da791af1dd78559a1fd0d549c46de3d40867c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 60/66] fix: the first Huxley (1993) bound on beta holds up to
 49/114, not 49/144

---
 blueprint/src/python/literature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index 77d0cef..a527346 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -62,14 +62,14 @@ add_beta_bound_huxley_kolesnik_1991()
 def add_beta_bound_huxley_1993():
     bbeta.add_beta_bound(
         literature,
-        Affine(frac(7, 20), frac(13, 60), Interval("[0, 49/144]")).max_with(
-            [Affine(frac(13, 20), frac(11, 120), Interval("[0, 49/144]"))]
+        Affine(frac(7, 20), frac(13, 60), Interval("[0, 49/114]")).max_with(
+            [Affine(frac(13, 20), frac(11, 120), Interval("[0, 49/114]"))]
         ),
         rm.get("huxley_exponential_1993"),
     )
     bbeta.add_beta_bound(
         literature,
-        [Affine(frac(1, 2), frac(89, 570), Interval("[49/144, 1/2]"))],
+        [Affine(frac(1, 2), frac(89, 570), Interval("[49/114, 1/2]"))],
         rm.get("huxley_exponential_1993"),
     )
 
-- 
2.43.0


From 3f6b6f3722270e54cebdbd84b4a69847631b5cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 61/66] fix: the second Ivic (1980) zero density estimate only
 holds up to 17/18

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index a527346..9b302fe 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -1213,7 +1213,7 @@ def add_zero_density_ivic_1980():
         literature, "4/(2 * x + 1)", Itvl(frac(17, 18), 1), Reference.make("Ivic", 1980)
     )
     zd.add_zero_density(
-        literature, "24/(30 * x - 11)", Itvl(frac(155, 174), 1), Reference.make("Ivic", 1980),
+        literature, "24/(30 * x - 11)", Itvl(frac(155, 174), frac(17, 18)), Reference.make("Ivic", 1980),
     )
 add_zero_density_ivic_1980()
 
-- 
2.43.0


From d21323be620dc80837c1da2b85cac56065210905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 62/66] fix: rho and rho* were interchanged in the first
 Guth--Maynard relation

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index 9b302fe..d6a8049 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -1014,7 +1014,7 @@ def add_lver_guth_maynard_2024a(K):
         # First region arising on S_3 <= 2tau + rho/2 + rho*/2
         reg1 = Region.from_union_of_halfplanes(
             common + [
-                [1, -2, frac(2,3), frac(1,6), -frac(5,6), 0]
+                [1, -2, frac(2,3), -frac(5,6), frac(1,6), 0]
             ],
             rect
         )
-- 
2.43.0


From 54d9db534792b904495392b2311a86d62e3447bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 63/66] fix: bibliography text outside of entries and @ signs
 inside fields

---
 blueprint/src/python/reference.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index b045039..b5fc7b0 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -80,10 +80,11 @@ class Reference_Manager:
 
         # parse file
         s = " ".join(l.strip() for l in lines)
-        items = s.split("@")
+        items = self._split_level(s, "{", "}", "@", 0, quotes=False)
 
         for item in items:
-            if len(item) == 0:
+            # Skip any text outside of the entries, such as comments
+            if "{" not in item:
                 continue
             ref = self._parse(item)
             if len(ref.label) > 0:
@@ -131,8 +132,9 @@ class Reference_Manager:
             value = value[1:-1]
         return value
 
-    # Split by delimiter, but only when it is nested 'level' deep (and not quoted)
-    def _split_level(self, item, open_brace, close_brace, delim, level):
+    # Split by delimiter, but only when it is nested 'level' deep (and not quoted,
+    # if quotation marks delimit strings)
+    def _split_level(self, item, open_brace, close_brace, delim, level, quotes=True):
         split = []  # contains all words
         chs = []  # current word
         l = 0
@@ -140,7 +142,7 @@ class Reference_Manager:
         for c in item:
             if c == close_brace:
                 l -= 1
-            if l == level and c == '"':
+            if quotes and l == level and c == '"':
                 quoted = not quoted
             if l == level and c == delim and not quoted:
                 if len(chs) > 0:
-- 
2.43.0


From da5d735183f867863bea435dd35b77cd7ad1f68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 64/66] fix: prove_heath_brown_energy_estimate and
 prove_improved_heath_brown_energy_estimate used a removed signature of
 lver_to_energy_bound

---
 blueprint/src/python/derived.py | 111 +++-----------------------------
 1 file changed, 10 insertions(+), 101 deletions(-)

diff --git a/blueprint/src/python/derived.py b/blueprint/src/python/derived.py
index b4c9451..23761c0 100644
--- a/blueprint/src/python/derived.py
+++ b/blueprint/src/python/derived.py
@@ -673,31 +673,7 @@ def prove_heath_brown_energy_estimate():
 
     # tau_0 as an affine function 
     tau0 = Affine(0, 2, Interval(frac(1,2), frac(3,4)))
-    LVER_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-tau0.c, -tau0.m, 1],       # tau >= tau0 = m sigma + c
-                [2 * tau0.c, 2 * tau0.m, -1] # tau <= 2 tau0 = 2 m sigma + 2 c
-            ])
-        )
-    
-    # Compute the feasible region for LV*(s, t) as a 3-dimensional polytope
-    LV_star_hyp = ad.compute_LV_star(hypotheses, LVER_domain, zeta=False, debug=False)
-
-    # domain representing 2 <= tau <= tau0
-    LVER_zeta_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-2, 0, 1],                     # tau0 >= 2
-                [tau0.c, tau0.m, -1],           # tau <= tau0 = m sigma + c
-            ])
-        )
-    # Compute the feasible region for LV_{\zeta}*(s, t) as a 3-dimensional polytope
-    LVZ_star_hyp = ad.compute_LV_star(hypotheses, LVER_zeta_domain, zeta=True, debug=False)
-    ze.lver_to_energy_bound(LV_star_hyp, LVZ_star_hyp, tau0.domain)
-
+    hs = ze.lver_to_energy_bound(hypotheses, tau0, debug=False)
 
     # Part 2: \sigma \in [3/4, 25/28] ----------------------------------------------------------
 
@@ -717,99 +693,32 @@ def prove_heath_brown_energy_estimate():
 
     # tau_0 as an affine function 
     tau0 = Affine(4, -1, Interval(frac(3,4), frac(25,28)))
-
-    LVER_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-tau0.c, -tau0.m, 1],       # tau >= tau0 = m sigma + c
-                [2 * tau0.c, 2 * tau0.m, -1] # tau <= 2 tau0 = 2 m sigma + 2 c
-            ])
-        )
-    
-    # Compute the feasible region for LV*(s, t) as a 3-dimensional 
-    # polytope for a range of sigma
-    LV_star_hyp = ad.compute_LV_star(hypotheses, LVER_domain, zeta=False, debug=False)
-
-    # domain representing 2 <= tau <= tau0
-    LVER_zeta_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-2, 0, 1],                     # tau0 >= 2
-                [tau0.c, tau0.m, -1],           # tau <= tau0 = m sigma + c
-            ])
-        )
-    # Compute the feasible region for LV_{\zeta}*(s, t) as a 3-dimensional polytope
-    LVZ_star_hyp = ad.compute_LV_star(hypotheses, LVER_zeta_domain, zeta=True, debug=False)
-    ze.lver_to_energy_bound(LV_star_hyp, LVZ_star_hyp, tau0.domain)
+    hs.extend(ze.lver_to_energy_bound(hypotheses, tau0, debug=False))
+    for h in hs: print(h.data)
+    return hs
 
 def prove_improved_heath_brown_energy_estimate():
     
-    # tau_0 as a piecewise affine function 
-    tau0s = [
-        Affine(8, -4, Interval(frac(3,4), frac(4,5)))
-    ]
-
     hypotheses = Hypothesis_Set()
 
     for k in range(2, 5):
        hypotheses.add_hypothesis(ad.get_raise_to_power_hypothesis(k))
 
     # Add classical and literature Large value estimates
-    hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Huxley large value estimate"))
-    hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Heath-Brown large value energy region 2a"))
-
-    # Convert all large value estimates -> large value energy region
-    hypotheses.add_hypotheses(ad.lv_to_lver(hypotheses, zeta=False))
-
-    # Convert tau_0 into a Region of (sigma, tau)
-    # domain representing tau0 <= tau <= 2tau0
-    LVER_domain = Region.disjoint_union([
-        Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-tau0.c, -tau0.m, 1],       # tau >= tau0 = m sigma + c
-                [2 * tau0.c, 2 * tau0.m, -1] # tau <= 2 tau0 = 2 m sigma + 2 c
-            ])
-        )
-        for tau0 in tau0s
-    ])
-    # Compute the feasible region for LV*(s, t) as a 3-dimensional 
-    # polytope for a range of sigma
-    LV_star_hyp = ad.compute_LV_star(hypotheses, LVER_domain, zeta=False)
-    
-    # New set of hypothesis for the zeta LVER computation
-    hypotheses = Hypothesis_Set()
-
-    for k in range(2, 3):
-        hypotheses.add_hypothesis(ad.get_raise_to_power_hypothesis(k))
-
     hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Huxley large value estimate"))
     hypotheses.add_hypothesis(literature.find_hypothesis(hypothesis_type="Zeta large value estimate"))
     hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Heath-Brown large value energy region 2a"))
-    
+
     # Convert all large value estimates -> large value energy region
     hypotheses.add_hypotheses(ad.lv_to_lver(hypotheses, zeta=False))
     # Convert all zeta large value estimates -> zeta large value energy region
     hypotheses.add_hypotheses(ad.lv_to_lver(hypotheses, zeta=True))
 
-    # domain representing 2 <= tau <= tau0
-    LVER_zeta_domain = Region.disjoint_union([
-        Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-2, 0, 1],                     # tau0 >= 2
-                [tau0.c, tau0.m, -1],           # tau <= tau0 = m sigma + c
-            ])
-        )
-        for tau0 in tau0s
-    ])
-    # Compute the feasible region for LV_{\zeta}*(s, t) as a 3-dimensional polytope
-    LVZ_star_hyp = ad.compute_LV_star(hypotheses, LVER_zeta_domain, zeta=True)
-    bounds = ze.lver_to_energy_bound(LV_star_hyp, LVZ_star_hyp, Interval(frac(1,2), 1))
+    # tau_0 as an affine function 
+    tau0 = Affine(8, -4, Interval(frac(3,4), frac(4,5)))
+    hs = ze.lver_to_energy_bound(hypotheses, tau0, debug=False)
+    for h in hs: print(h.data)
+    return hs
 
 def prove_zero_density_energy_2():
     hypotheses = Hypothesis_Set()
-- 
2.43.0


From 5f7f0ff7d272f8b3ef13c81c3d1e0198648d3157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:58 +0000
Subject: [PATCH 65/66] fix: hulls of mu bounds and exponent pairs ignored
 differences beyond floating point precision

---
 blueprint/src/python/bound_mu.py      | 12 ++++--------
 blueprint/src/python/exponent_pair.py | 28 ++++++++-------------------
 blueprint/src/python/functions.py     | 27 ++++++++++++++++++++++++++
 3 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index d931e09..690d001 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -9,8 +9,6 @@ from exponent_pair import *
 
 # from mpmath import fraction as frac
 from fractions import Fraction as frac
-import numpy as np
-from scipy.spatial import ConvexHull
 from reference import *
 
 
@@ -169,12 +167,10 @@ def get_bounds(hypothesis_set):
 # Compute the 2-d convex hull containing all points (sigma, mu) implied
 # by mu bounds in 'bounds' list and saves it in the 'hypothesis_set' object.
 def compute_convex_hull(bounds, hypothesis_set):
-    # The convex hull package requires us to provide at least 3 points, while some
-    # hypothesis sets may only contain 2 points, so we include a placeholder point as
-    # a third point to account for this edge case.
-    bounds = bounds + [conjecture_bound_mu(1 / 2, 10, "Placeholder")]
-    conv = ConvexHull(np.array([[b.data.sigma, b.data.mu] for b in bounds]))
-    vertices = [bounds[v] for v in conv.vertices]
+    # The upper boundary of the convex hull consists of a placeholder point, so that
+    # all other edges are lower edges
+    bounds = bounds + [conjecture_bound_mu(frac(1, 2), 10, "Placeholder")]
+    vertices = [bounds[v] for v in convex_hull_vertices([(b.data.sigma, b.data.mu) for b in bounds])]
     hypothesis_set.data["mu_convex_hull"] = vertices
     hypothesis_set.data_valid = True
 
diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 9b4cf21..2fb8ae2 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -6,8 +6,6 @@ from bound_beta import *
 import copy
 from fractions import Fraction as frac
 import itertools
-import numpy as np
-from scipy.spatial import ConvexHull
 import typing
 
 # Note: for the purposes of this database, we use the definition of exponent pair that allows for epsilon losses in the bound.
@@ -28,17 +26,7 @@ class Exp_pair:
 # Returns those elements of a list of exponent pair hypotheses which are vertices of
 # the convex hull of the list
 def _hull_vertices(pairs):
-    pts = [(p.data.k, p.data.l) for p in pairs]
-    if len(pts) < 3:
-        return list(pairs)
-
-    # ConvexHull does not support points lying on a single line
-    a, b = min(pts), max(pts)
-    if all((b[0] - a[0]) * (p[1] - a[1]) == (b[1] - a[1]) * (p[0] - a[0]) for p in pts):
-        return [pairs[pts.index(p)] for p in ([a, b] if a != b else [a])]
-
-    conv = ConvexHull(np.array([[p[0], p[1]] for p in pts]))
-    return [pairs[v] for v in conv.vertices]
+    return [pairs[v] for v in convex_hull_vertices([(p.data.k, p.data.l) for p in pairs])]
 
 ########################################################################################
 # Constructors for exponent pairs
@@ -138,7 +126,7 @@ def compute_exp_pairs(
 
     return [p for p in pairs.values()]
 
-def compute_convex_hull(hypothesis_set: Hypothesis_Set) -> ConvexHull:
+def compute_convex_hull(hypothesis_set: Hypothesis_Set) -> list[Hypothesis]:
     """
     Compute the convex hull of exponent pairs from the literature. This method
     only uses exponent pairs that are already part of the hypothesis set 
@@ -153,8 +141,8 @@ def compute_convex_hull(hypothesis_set: Hypothesis_Set) -> ConvexHull:
     
     Returns
     -------
-    ConvexHull
-        A convex hull object representing the convex hull of exponent pairs. 
+    list of Hypothesis
+        The exponent pairs which are vertices of the convex hull, in counterclockwise order.
     """
     pairs = hypothesis_set.list_hypotheses("Exponent pair")
 
@@ -214,7 +202,7 @@ def beta_bounds_to_exponent_pairs(
         points.append([piece.domain.x1, piece.at(piece.domain.x1, extend_domain=True)])
 
     # Compute the convex hull containing the \beta bounds
-    conv = ConvexHull(np.array(points))
+    verts = convex_hull_vertices(points)
 
     # Every beta bound is included in the dependencies for every exponent pair, since an 
     # exponent pair requires a bound on all of [0, 1/2] (including those bounds which are 
@@ -225,9 +213,9 @@ def beta_bounds_to_exponent_pairs(
     known_eps = {(p.data.k, p.data.l):p for p in known_ephs}
     all_eps = [e for e in known_ephs]
     
-    for i in range(len(conv.vertices)):
-        p1 = points[conv.vertices[i]]
-        p2 = points[conv.vertices[(i + 1) % len(conv.vertices)]]
+    for i in range(len(verts)):
+        p1 = points[verts[i]]
+        p2 = points[verts[(i + 1) % len(verts)]]
         # Remove degenerate cases
         if (
             (p1[1] == 0 and p2[1] == 0)
diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index a7c05d4..00593c3 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -628,6 +628,33 @@ class Piecewise:
         self.pieces = pieces
 
 
+# Computes the vertices of the convex hull of a list of points (x, y) in the plane, using
+# exact arithmetic. Returns the indices of the vertices in the list of points, in
+# counterclockwise order. If a vertex appears more than once in the list, its first index
+# is returned.
+def convex_hull_vertices(points):
+    first = {}
+    for i in range(len(points)):
+        first.setdefault(tuple(points[i]), i)
+
+    # Andrew's monotone chain algorithm
+    def chain(pts):
+        hull = []
+        for p in pts:
+            while len(hull) >= 2 and (
+                (hull[-1][0] - hull[-2][0]) * (p[1] - hull[-2][1])
+                <= (hull[-1][1] - hull[-2][1]) * (p[0] - hull[-2][0])
+            ):
+                hull.pop()
+            hull.append(p)
+        return hull
+
+    pts = sorted(first)
+    if len(pts) < 2:
+        return [first[p] for p in pts]
+    return [first[p] for p in chain(pts)[:-1] + chain(pts[::-1])[:-1]]
+
+
 # Auxiliary functions for sympy
 class SympyHelper:
 
-- 
2.43.0


From da35c03cef747c21ef5f559896036655807f1a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:26 +0000
Subject: [PATCH 66/66] fix: keep zeta large value estimates from beta bounds
 within the range of tau

---
 blueprint/src/python/zeta_large_values.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/zeta_large_values.py b/blueprint/src/python/zeta_large_values.py
index e323a54..e68ad52 100644
--- a/blueprint/src/python/zeta_large_values.py
+++ b/blueprint/src/python/zeta_large_values.py
@@ -124,7 +124,9 @@ def beta_to_zlv(hypotheses):
             else min(Constants.TAU_UPPER_LIMIT, 1 / alpha0)
         )
         tau_lower = (
-            Constants.TAU_UPPER_LIMIT if alpha1 == 0 else max(frac(2, 1), 1 / alpha1)
+            Constants.TAU_UPPER_LIMIT
+            if alpha1 == 0
+            else min(Constants.TAU_UPPER_LIMIT, max(frac(2, 1), 1 / alpha1))
         )
 
         # In order for the min_with function to work we require that we have a
-- 
2.43.0

