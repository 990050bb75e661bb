From 756aa2b9ad83ca27439c60c9b822efee8a5381ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 01/18] fix: Polyhedron.contains checks every equality in both
 directions

The absolute value was taken after the maximum over the equalities, so a
point violating one of several equalities from below was accepted; and a
polyhedron without inequalities raised an error.
---
 pympc/geometry/polyhedron.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index aa5f3e8..0ea7ff8 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -593,12 +593,10 @@ class Polyhedron(object):
         """
 
         # check inequalities
-        in_ineq = np.max(self.A.dot(x) - self.b) <= tol
+        in_ineq = np.all(self.A.dot(x) - self.b <= tol)
 
         # check equalities
-        in_eq = True
-        if self.C.shape[0] > 0:
-            in_eq = np.abs(np.max(self.C.dot(x) - self.d)) <= tol
+        in_eq = np.all(np.abs(self.C.dot(x) - self.d) <= tol)
         contains_x = in_ineq and in_eq
 
         return contains_x
-- 
2.43.0


From fba5918b0e598fd70cd7523fae1d3882fc07a3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 02/18] fix: projecting a polyhedron does not rescale its
 right-hand side

_expand_simplex divided the right-hand side b of the projected polyhedron
(in place, so also the caller's array) where the offset d of the facet was
meant; with an integer b it raised a casting error.
---
 pympc/geometry/polyhedron.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 0ea7ff8..a71a149 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -1105,8 +1105,8 @@ def _expand_simplex(A, b, hull, tol=1.e-7):
             a = hull.equations[i, :-1]
             d = - hull.equations[i, -1]
             a_norm = np.linalg.norm(a)
-            a /= a_norm
-            b /= a_norm
+            a = a / a_norm
+            d = d / a_norm
 
             # check if the direction a has been explored so far
             is_explored = any((np.allclose(a, a2) for a2 in a_explored))
-- 
2.43.0


From 39bb12a52dcb22030d21702e49672a300f0e576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 03/18] fix: Polyhedron.normalize does not write into shared
 arrays

The rows were scaled in place, which changed the arrays given to the
constructor and hence any other polyhedron built from them (or copied from
this one), and truncated the result with integer data.
---
 pympc/geometry/polyhedron.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index a71a149..19a22b7 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -386,19 +386,17 @@ class Polyhedron(object):
             Threshold value for the norm of the rows of A and C under which the related inequality (or equality) is not normalized.
         """
 
-        # inequalities
-        for i in range(self.A.shape[0]):
-            r = np.linalg.norm(self.A[i])
-            if r > tol:
-                self.A[i] = self.A[i]/r
-                self.b[i] = self.b[i]/r
+        # inequalities (do not scale in place, the arrays can be shared with other objects)
+        r = np.linalg.norm(self.A, axis=1)
+        r = np.where(r > tol, r, 1.)
+        self.A = self.A/r[:, np.newaxis]
+        self.b = self.b/r
 
         # equalities
-        for i in range(self.C.shape[0]):
-            r = np.linalg.norm(self.C[i])
-            if r > tol:
-                self.C[i] = self.C[i]/r
-                self.d[i] = self.d[i]/r
+        r = np.linalg.norm(self.C, axis=1)
+        r = np.where(r > tol, r, 1.)
+        self.C = self.C/r[:, np.newaxis]
+        self.d = self.d/r
 
     def minimal_facets(self, tol=1.e-7):
         """
-- 
2.43.0


From fee8f06b227030aac0b450588a4a16c440528019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 04/18] fix: same_rows does not normalize the matrices of the
 caller

The rows were scaled in place (and truncated with integer data).
---
 pympc/geometry/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index ca1dc4a..13eadf8 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -117,9 +117,8 @@ def same_rows(A, B, normalize=True):
 
     # if required, normalize
     if normalize:
-        for i in range(A.shape[0]):
-            A[i] = A[i] / np.linalg.norm(A[i])
-            B[i] = B[i] / np.linalg.norm(B[i])
+        A = np.array([a / np.linalg.norm(a) for a in A])
+        B = np.array([b / np.linalg.norm(b) for b in B])
 
     # check one row per time
     for a in A:
-- 
2.43.0


From fd81c3fc1771fe2a8608160d4fb2c18c94b8f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 05/18] fix: PieceWiseAffineSystem does not modify the list it
 is given

---
 pympc/dynamics/discrete_time_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pympc/dynamics/discrete_time_systems.py b/pympc/dynamics/discrete_time_systems.py
index 7c59708..81e0734 100644
--- a/pympc/dynamics/discrete_time_systems.py
+++ b/pympc/dynamics/discrete_time_systems.py
@@ -473,7 +473,8 @@ class PieceWiseAffineSystem(object):
         if list(nxu)[0] != self.nx + self.nu:
             raise ValueError('the domains and the affine systems must have coherent dimensions.')
 
-        # make instances of LinearSystem instances of AffineSystem
+        # make instances of LinearSystem instances of AffineSystem (without modifying the given list)
+        affine_systems = list(affine_systems)
         for i, S in enumerate(affine_systems):
             if isinstance(S, LinearSystem):
                 c = np.zeros(self.nx)
-- 
2.43.0


From 5d5797c145f0f8129159085102beca03059bbb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 06/18] fix: a rejected constraint leaves the polyhedron
 unchanged

With a two-dimensional right-hand side add_inequality and add_equality
raised after the left-hand side had been extended, leaving A (C) and b (d)
with different numbers of rows; add_bounds kept the lower bound when the
upper one was rejected.
---
 pympc/geometry/polyhedron.py | 40 ++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 19a22b7..31e48f9 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -76,14 +76,18 @@ class Polyhedron(object):
 
         # check inequalities
         self._same_number_rows(A, b)
-    
+
+        # assemble inequalities (before any change, in case of an error)
+        S = self._selection_matrix(indices)
+        A_new = np.vstack((self.A, A.dot(S)))
+        b_new = np.concatenate((self.b, b))
+
         # reset attributes to None
         self._delete_attributes()
 
         # add inequalities
-        S = self._selection_matrix(indices)
-        self.A = np.vstack((self.A, A.dot(S)))
-        self.b = np.concatenate((self.b, b))
+        self.A = A_new
+        self.b = b_new
 
     def add_symbolic_inequality(self, x, ineq):
         """
@@ -116,13 +120,17 @@ class Polyhedron(object):
         # check equalities
         self._same_number_rows(C, d)
 
+        # assemble equalities (before any change, in case of an error)
+        S = self._selection_matrix(indices)
+        C_new = np.vstack((self.C, C.dot(S)))
+        d_new = np.concatenate((self.d, d))
+
         # reset attributes to None
         self._delete_attributes()
 
         # add equalities
-        S = self._selection_matrix(indices)
-        self.C = np.vstack((self.C, C.dot(S)))
-        self.d = np.concatenate((self.d, d))
+        self.C = C_new
+        self.d = d_new
 
     def add_symbolic_equality(self, x, eq):
         """
@@ -195,8 +203,22 @@ class Polyhedron(object):
             Set of indices of elements of x to which the inequality applies.
         """
 
-        self.add_lower_bound(x_min, indices)
-        self.add_upper_bound(x_max, indices)
+        # if the bounds are floats make them arrays
+        if isinstance(x_min, float):
+            x_min = np.array([x_min])
+        if isinstance(x_max, float):
+            x_max = np.array([x_max])
+
+        # check both the bounds before adding any of them
+        S = self._selection_matrix(indices)
+        self._same_number_rows(S, x_min)
+        self._same_number_rows(S, x_max)
+
+        # add the constraints - S x <= - x_min and S x <= x_max, with S selection matrix
+        self.add_inequality(
+            np.vstack((-S, S)),
+            np.concatenate((-x_min, x_max))
+            )
 
     def _delete_attributes(self):
         """
-- 
2.43.0


From 39c8e429bc6d7968d473d4d6823970a682bd7657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 07/18] fix: constraints on x[indices] follow the order of
 indices

The selection matrix had its rows in increasing order whatever the order
of indices, so e.g. bounds given for indices [1, 0] were swapped.
---
 pympc/geometry/polyhedron.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 31e48f9..3417c22 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -252,9 +252,8 @@ class Polyhedron(object):
         if indices is None:
             indices = range(n)
 
-        # delete from the identity matrix all the rows that are not in indices
-        complement = [i for i in range(n) if i not in indices]
-        S = np.delete(np.eye(n), complement, 0)
+        # select from the identity matrix the rows in indices (in the given order)
+        S = np.eye(n)[list(indices)]
 
         return S
 
-- 
2.43.0


From 3a12f29e08dc37b6f5456642fd16bd0109f85c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 08/18] fix: is_included_in handles unbounded and empty
 polyhedra

The linear programs have no minimum in these cases, and changing the sign
of None raised a TypeError.
---
 pympc/geometry/polyhedron.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 3417c22..05690a6 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -639,6 +639,10 @@ class Polyhedron(object):
             True if this polyhedron is contained in P2, False otherwise.
         """
 
+        # the empty set is included in any set
+        if self.empty:
+            return True
+
         # augment inequalities with equalities
         A1 = np.vstack((self.A, self.C, -self.C))
         b1 = np.concatenate((self.b, self.d, -self.d))
@@ -650,8 +654,8 @@ class Polyhedron(object):
         included = True
         for i in range(A2.shape[0]):
             sol = linear_program(-A2[i], P1.A, P1.b)
-            penetration = - sol['min'] - b2[i]
-            if penetration > tol:
+            # (P1 is not empty, hence the LP has no solution only if it is unbounded)
+            if sol['min'] is None or - sol['min'] - b2[i] > tol:
                 included = False
                 break
 
-- 
2.43.0


From 3d70872c0aaeb0ceb7c16d6dd074d067c7ccdc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 09/18] fix: Chebyshev radius of an unbounded polyhedron with
 equalities is None

It raised an error instead of returning None as documented.
---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 05690a6..9de7111 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -782,7 +782,7 @@ class Polyhedron(object):
             center = center[:-1]
 
         # go back to the original coordinates in case of equalities
-        if self.C.shape[0] > 0:
+        if self.C.shape[0] > 0 and center is not None:
             r = np.linalg.inv(self.C.dot(R)).dot(self.d)
             center = np.hstack((N, R)).dot(np.concatenate((center, r)))
 
-- 
2.43.0


From a0f855f4f2cf3a83198d17a2e7d91ab6a5cd56be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 10/18] fix: the vertices of an empty polyhedron are None

With a trivially unfeasible inequality (zero left-hand side, negative
right-hand side) the Chebyshev radius is not defined and comparing it with
the tolerance raised a TypeError.
---
 pympc/geometry/polyhedron.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 9de7111..1750ee9 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -804,8 +804,8 @@ class Polyhedron(object):
         if self._vertices is not None:
             return self._vertices
 
-        # check boundedness
-        if not self.bounded:
+        # check emptyness and boundedness
+        if self.empty or not self.bounded:
             return None
 
         # check full dimensionality
-- 
2.43.0


From 27596a68bcffe5cffb046d04aa150680c6ca42e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 11/18] fix: is_well_posed handles domains with an unbounded
 intersection

Their Chebyshev radius is None, and comparing it raised a TypeError.
---
 pympc/dynamics/discrete_time_systems.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pympc/dynamics/discrete_time_systems.py b/pympc/dynamics/discrete_time_systems.py
index 81e0734..d5c53d6 100644
--- a/pympc/dynamics/discrete_time_systems.py
+++ b/pympc/dynamics/discrete_time_systems.py
@@ -576,8 +576,11 @@ class PieceWiseAffineSystem(object):
             for j in range(i+1, self.nm):
                 Dij = Di.intersection(self.domains[j])
 
-                # check the Chebyshev radius of the intersection
-                if Dij.radius > tol:
+                # check the Chebyshev radius of the intersection (None if the intersection contains arbitrarily large balls)
+                if Dij.radius is None:
+                    if not Dij.empty:
+                        return False
+                elif Dij.radius > tol:
                     return False
 
         return True
-- 
2.43.0


From bd05c34032d7c7ced8a455a1261ffd442bb27c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 12/18] fix: hybrid MPC rejects empty and unbounded domains

The bigMs do not exist for these domains, and the controller raised a
TypeError from arithmetic on None.
---
 pympc/control/controllers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pympc/control/controllers.py b/pympc/control/controllers.py
index b7f7be4..d4d5cb4 100644
--- a/pympc/control/controllers.py
+++ b/pympc/control/controllers.py
@@ -342,10 +342,12 @@ class HybridModelPredictiveController(object):
                 # solve two LPs for each component of the state vector
                 for k in range(S_i.nx):
                     f = A_i[k]
-                    sol = linear_program(f, D_j.A, D_j.b, D_j.C, D_j.d)
-                    alpha_ij.append(sol['min'] + S_i.c[k])
-                    sol = linear_program(-f, D_j.A, D_j.b, D_j.C, D_j.d)
-                    beta_ij.append(- sol['min'] + S_i.c[k])
+                    sol_min = linear_program(f, D_j.A, D_j.b, D_j.C, D_j.d)
+                    sol_max = linear_program(-f, D_j.A, D_j.b, D_j.C, D_j.d)
+                    if sol_min['min'] is None or sol_max['min'] is None:
+                        raise ValueError('empty or unbounded domain, cannot compute the bigMs.')
+                    alpha_ij.append(sol_min['min'] + S_i.c[k])
+                    beta_ij.append(- sol_max['min'] + S_i.c[k])
 
                 # close inner loop appending bigMs
                 alpha_i.append(np.vstack(alpha_ij))
@@ -394,6 +396,8 @@ class HybridModelPredictiveController(object):
                 for k in range(D_i.A.shape[0]):
                     f = -D_i.A[k]
                     sol = linear_program(f, D_j.A, D_j.b, D_j.C, D_j.d)
+                    if sol['min'] is None:
+                        raise ValueError('empty or unbounded domain, cannot compute the bigMs.')
                     gamma_ij.append(- sol['min'] - D_i.b[k])
 
                 # close inner loop appending bigMs
-- 
2.43.0


From ed955bd2114806edea231487504c621e2cdf14a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 13/18] fix: the gurobi solvers reject equalities with missing
 C or d

As the other solvers do; if only d was given the equalities were ignored.
---
 pympc/optimization/solvers/gurobi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pympc/optimization/solvers/gurobi.py b/pympc/optimization/solvers/gurobi.py
index 258c808..177b88a 100644
--- a/pympc/optimization/solvers/gurobi.py
+++ b/pympc/optimization/solvers/gurobi.py
@@ -185,6 +185,10 @@ def _build_model(H=None, f=None, A=None, b=None, C=None, d=None):
         Model of the mathematical program.
     """
 
+    # check equalities
+    if (C is None) != (d is None):
+        raise ValueError('missing C or d.')
+
     # initialize model
     model = grb.Model()
     n_x = f.size
-- 
2.43.0


From 58e4225689c20a52ee61158d198b51c736198052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 14/18] fix: the solver 'drake' is available again

Its import was commented out, so solver='drake' raised a NameError.  The
module is now imported when the solver is selected, since drake is an
optional dependency.
---
 pympc/optimization/programs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pympc/optimization/programs.py b/pympc/optimization/programs.py
index 6fe16c4..2b5d870 100644
--- a/pympc/optimization/programs.py
+++ b/pympc/optimization/programs.py
@@ -4,7 +4,6 @@ import numpy as np
 # internal inputs
 from pympc.optimization.solvers.pnnls import linear_program as lp_pnnls, quadratic_program as qp_pnnls
 from pympc.optimization.solvers.gurobi import linear_program as lp_gurobi, quadratic_program as qp_gurobi, mixed_integer_quadratic_program as miqp_gurobi
-# from pympc.optimization.solvers.drake import linear_program as lp_drake, quadratic_program as qp_drake, mixed_integer_quadratic_program as miqp_drake
 
 def linear_program(f, A, b, C=None, d=None, solver='pnnls'):
     """
@@ -50,6 +49,7 @@ def linear_program(f, A, b, C=None, d=None, solver='pnnls'):
     elif solver == 'gurobi':
         return lp_gurobi(f, A, b, C, d)
     elif solver == 'drake':
+        from pympc.optimization.solvers.drake import linear_program as lp_drake # optional dependency
         return lp_drake(f, A, b, C, d)
     else:
         raise ValueError('unknown solver ' + str(solver) + '.')
@@ -100,6 +100,7 @@ def quadratic_program(H, f, A, b, C=None, d=None, solver='pnnls'):
     elif solver == 'gurobi':
         return qp_gurobi(H, f, A, b, C, d)
     elif solver == 'drake':
+        from pympc.optimization.solvers.drake import quadratic_program as qp_drake # optional dependency
         return qp_drake(H, f, A, b, C, d)
     else:
         raise ValueError('unknown solver ' + str(solver) + '.')
@@ -145,6 +146,7 @@ def mixed_integer_quadratic_program(nc, H, f, A, b, C=None, d=None, solver='guro
     if solver == 'gurobi':
         return miqp_gurobi(nc, H, f, A, b, C, d)
     if solver == 'drake':
+        from pympc.optimization.solvers.drake import mixed_integer_quadratic_program as miqp_drake # optional dependency
         return miqp_drake(nc, H, f, A, b, C, d)
     else:
         raise ValueError('unknown solver ' + str(solver) + '.')
\ No newline at end of file
-- 
2.43.0


From aa30f46047a6d50db9c2d4cc9b5f6f0dad0b5388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:22 +0000
Subject: [PATCH 15/18] fix: the MPC controllers enforce the equalities of the
 constraint sets

The equalities of the stage constraints, of the domains of the PWA system and
of the terminal set (e.g. a terminal equality constraint) were ignored.
---
 pympc/control/controllers.py | 24 ++++++++++++++----------
 pympc/geometry/polyhedron.py | 15 +++++++++++++++
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/pympc/control/controllers.py b/pympc/control/controllers.py
index d4d5cb4..2afc74a 100644
--- a/pympc/control/controllers.py
+++ b/pympc/control/controllers.py
@@ -387,6 +387,7 @@ class HybridModelPredictiveController(object):
         # outer loop over the number of affine systems
         for i, D_i in enumerate(self.S.domains):
             gamma_i = []
+            D_i = D_i.inequality_form()
 
             # inner loop over the number of affine systems
             for j, D_j in enumerate(self.S.domains):
@@ -467,7 +468,8 @@ class HybridModelPredictiveController(object):
         nx = self.S.nx
         nu = self.S.nu
         s  = self.S.nm
-        n_ineq = sum([D.A.shape[0] for D in self.S.domains])
+        domains = [D.inequality_form() for D in self.S.domains]
+        n_ineq = sum([D.A.shape[0] for D in domains])
 
         # build blocks
         E = dict()
@@ -476,7 +478,7 @@ class HybridModelPredictiveController(object):
             np.zeros((nx*s, nx)),                             # Equation 2
             np.vstack([-S.A for S in self.S.affine_systems]), # Equation 3
             np.vstack([S.A for S in self.S.affine_systems]),  # Equation 4
-            np.vstack([D.A[:,:nx] for D in self.S.domains]),  # Equation 5
+            np.vstack([D.A[:,:nx] for D in domains]),         # Equation 5
             np.zeros((2, nx))                                 # Equation 6
             ))
         E['u'] = np.vstack((
@@ -484,7 +486,7 @@ class HybridModelPredictiveController(object):
             np.zeros((nx*s, nu)),                             # Equation 2
             np.vstack([-S.B for S in self.S.affine_systems]), # Equation 3
             np.vstack([S.B for S in self.S.affine_systems]),  # Equation 4
-            np.vstack([D.A[:,nx:] for D in self.S.domains]),  # Equation 5
+            np.vstack([D.A[:,nx:] for D in domains]),         # Equation 5
             np.zeros((2, nu))                                 # Equation 6
             ))
         E['z'] = np.vstack((
@@ -508,7 +510,7 @@ class HybridModelPredictiveController(object):
             np.zeros(nx*s),                                        # Equation 2
             np.concatenate([S.c for S in self.S.affine_systems]),  # Equation 3
             np.concatenate([-S.c for S in self.S.affine_systems]), # Equation 4
-            np.concatenate([D.b for D in self.S.domains]),         # Equation 5
+            np.concatenate([D.b for D in domains]),                # Equation 5
             np.array([1.,-1.])                                     # Equation 6
             ))
 
@@ -564,24 +566,25 @@ class HybridModelPredictiveController(object):
         """
 
         # build blocks
+        X_N = self.X_N.inequality_form()
         E_bar = dict()
-        E_bar['x'] = block_diag(*[E['x']]*self.N + [self.X_N.A])
+        E_bar['x'] = block_diag(*[E['x']]*self.N + [X_N.A])
         E_bar['u'] = block_diag(*[E['u']]*self.N)
         E_bar['u'] = np.vstack((
             E_bar['u'],
-            np.zeros((self.X_N.A.shape[0], E_bar['u'].shape[1]))
+            np.zeros((X_N.A.shape[0], E_bar['u'].shape[1]))
         ))
         E_bar['z'] = block_diag(*[E['z']]*self.N)
         E_bar['z'] = np.vstack((
             E_bar['z'],
-            np.zeros((self.X_N.A.shape[0], E_bar['z'].shape[1]))
+            np.zeros((X_N.A.shape[0], E_bar['z'].shape[1]))
         ))
         E_bar['d'] = block_diag(*[E['d']]*self.N)
         E_bar['d'] = np.vstack((
             E_bar['d'],
-            np.zeros((self.X_N.A.shape[0], E_bar['d'].shape[1]))
+            np.zeros((X_N.A.shape[0], E_bar['d'].shape[1]))
         ))
-        E_bar['0'] = np.concatenate([E['0']]*self.N + [self.X_N.b])
+        E_bar['0'] = np.concatenate([E['0']]*self.N + [X_N.b])
 
         return E_bar
 
@@ -735,7 +738,8 @@ def condense_optimal_control_problem(S, Q, R, P, X_N, mode_sequence):
     g = .5 * c_bar.dot(Q_bar).dot(c_bar)
 
     # stack constraint matrices
-    D_sequence = [S.domains[m]for m in mode_sequence]
+    D_sequence = [S.domains[m].inequality_form() for m in mode_sequence]
+    X_N = X_N.inequality_form()
     F_bar = block_diag(*[D.A[:,:S.nx] for D in D_sequence] + [X_N.A])
     G_bar = block_diag(*[D.A[:,S.nx:] for D in D_sequence])
     G_bar = np.vstack((
diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 1750ee9..460b0db 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -683,6 +683,21 @@ class Polyhedron(object):
 
         return P3
 
+    def inequality_form(self):
+        """
+        Returns this polyhedron described only by inequalities, stating each equality as a pair of inequalities.
+
+        Returns
+        ----------
+        P : instance of Polyhedron
+            Polyhedron {x | A x <= b, C x <= d, - C x <= - d}.
+        """
+
+        return Polyhedron(
+            np.vstack((self.A, self.C, -self.C)),
+            np.concatenate((self.b, self.d, -self.d))
+            )
+
     def cartesian_product(self, P2):
         """
         Returns the Cartesian product between this instance of Polyhedron (P1) and the polyhedron P2.
-- 
2.43.0


From b9bf4aab4865432bf162b599a09521541e00a878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:23 +0000
Subject: [PATCH 16/18] fix: mcais rejects constraint sets with equalities

The equalities were ignored, so the returned set was not constraint
admissible.
---
 pympc/dynamics/discrete_time_systems.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pympc/dynamics/discrete_time_systems.py b/pympc/dynamics/discrete_time_systems.py
index d5c53d6..ca99ec2 100644
--- a/pympc/dynamics/discrete_time_systems.py
+++ b/pympc/dynamics/discrete_time_systems.py
@@ -151,7 +151,9 @@ class LinearSystem(object):
         # state-space constraint set
         X_cl = Polyhedron(
             D.A[:,:self.nx] + D.A[:,self.nx:].dot(K),
-            D.b
+            D.b,
+            D.C[:,:self.nx] + D.C[:,self.nx:].dot(K),
+            D.d
             )
         O_inf = mcais(A_cl, X_cl, **kwargs)
 
@@ -630,6 +632,8 @@ def mcais(A, X, verbose=False):
     eig_max = np.max(np.absolute(np.linalg.eig(A)[0]))
     if eig_max > 1.:
         raise ValueError('unstable system, cannot derive maximal constraint-admissible set.')
+    if X.C.shape[0] > 0:
+        raise ValueError('lower-dimensional constraint set, cannot derive maximal constraint-admissible set.')
     [nc, nx] = X.A.shape
     if not X.contains(np.zeros((nx, 1))):
         raise ValueError('the origin is not contained in the constraint set, cannot derive maximal constraint-admissible set.')
-- 
2.43.0


From 3ab4a01011ea49e6cd5e9e5c6dd759082652327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:30 +0000
Subject: [PATCH 17/18] fix: center of the unbounded facets of a critical
 region

---
 pympc/optimization/parametric_programs.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pympc/optimization/parametric_programs.py b/pympc/optimization/parametric_programs.py
index 1c39c27..cf6a719 100644
--- a/pympc/optimization/parametric_programs.py
+++ b/pympc/optimization/parametric_programs.py
@@ -343,8 +343,16 @@ class CriticalRegion(object):
             facet.A[i:i+1, :],
             facet.b[i:i+1]
             )
+        center = facet.center
 
-        return facet.center
+        # if the facet contains arbitrarily large balls, consider only a box around its point of minimum norm
+        if center is None:
+            n = facet.A.shape[1]
+            sol = quadratic_program(np.eye(n), np.zeros(n), facet.A, facet.b, facet.C, facet.d)
+            facet.add_bounds(sol['argmin'] - 1., sol['argmin'] + 1.)
+            center = facet.center
+
+        return center
 
     def u(self, x):
         """
-- 
2.43.0


From 90d11e4612d7d230e521ea06c6230fe6bafa9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:30 +0000
Subject: [PATCH 18/18] fix: print the active sets only in the critical regions
 with a center

---
 pympc/control/controllers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/control/controllers.py b/pympc/control/controllers.py
index 2afc74a..5120bfe 100644
--- a/pympc/control/controllers.py
+++ b/pympc/control/controllers.py
@@ -205,8 +205,8 @@ class ModelPredictiveController(object):
         for cr in self.explicit_solution.critical_regions:
             cr.polyhedron.plot(facecolor=np.random.rand(3), **kwargs)
 
-            # if required print active sets
-            if print_active_set:
+            # if required print active sets (regions with arbitrarily large balls do not have a center)
+            if print_active_set and cr.polyhedron.center is not None:
                 plt.text(cr.polyhedron.center[0], cr.polyhedron.center[1], str(cr.active_set))
 
     def plot_optimal_value_function(self, resolution=100, **kwargs):
-- 
2.43.0

