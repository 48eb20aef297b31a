From e4cc7918c3ed6434b056ed507e3657d8aec73ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 01/67] fix: multiply splines when a symbolic operand has a
 single coefficient

Indexing a casadi scalar with a list gives a row, so the product of the selected
coefficients failed (and fell through to cvxopt, which is not imported).
---
 omgtools/basics/spline.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/omgtools/basics/spline.py b/omgtools/basics/spline.py
index ce8ac4d..cb16544 100644
--- a/omgtools/basics/spline.py
+++ b/omgtools/basics/spline.py
@@ -88,6 +88,15 @@ def get_module(var):
     return getattr(type(var), '__module__', '').split('.')[0]
 
 
+def take_coeffs(coeffs, ind):
+    """Select (repeated) coefficients as a column"""
+    selection = coeffs[ind.tolist()]
+    if isinstance(selection, (cas.MX, cas.SX, cas.DM)):
+        # indexing a casadi scalar with a list yields a row instead of a column
+        return cas.vec(selection)
+    return selection
+
+
 class csr_matrix_alt(csr_matrix):
     """Subclass csr_matrix to overload dot operator for MX/SX classes and
     cvxpy classes"""
@@ -425,8 +434,8 @@ class BSpline(Spline):
             basis_product = b_self[:, pairs[0]].multiply(b_other[:, pairs[1]])
             T = basis.transform(lambda y: basis_product.toarray()[y, :])
             try:
-                coeffs_product = (self.coeffs[pairs[0].tolist()] *
-                                  other.coeffs[pairs[1].tolist()])
+                coeffs_product = (take_coeffs(self.coeffs, pairs[0]) *
+                                  take_coeffs(other.coeffs, pairs[1]))
             except:  # cvxopt, cvxpy, assuming other.coeffs is not a variable
                 S = np.zeros((len(pairs[0]), len(self)))
                 S[[list(range(len(pairs[0]))), pairs[0]]] = 1.
-- 
2.43.0


From 9ebe1b2d88b7e5108cbfc383f94da9c0d352757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 02/67] fix: shift and extrapolate splines on any clamped basis

shiftoverknot_T assumed a domain starting at 0, simple interior knots and at least
as many intervals as the degree; extrapolate_T and the inverse first-knot shift
indexed out of bounds for bases without interior knots.
---
 omgtools/basics/spline_extra.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index dbf2e1e..8f4d24e 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -111,7 +111,7 @@ def extrapolate_T(basis, t_extra):
     deg = basis.degree
     N = len(basis)
     m = 1  # number of repeating internal knots
-    while knots[-deg-2-m] >= knots[-deg-2]:
+    while m <= deg and knots[-deg-2-m] >= knots[-deg-2]:
         m += 1
     knots2 = np.r_[knots[:-deg-1], knots[-deg-1]*np.ones(m),
                    (knots[-1]+t_extra)*np.ones(deg+1)]
@@ -168,13 +168,17 @@ def shiftoverknot_T(basis):
     # over the last knot interval.
     knots = basis.knots
     deg = basis.degree
-    m = 1  # number of repeating internal knots
-    while knots[-deg-2-m] >= knots[-deg-2]:
-        m += 1
-    t_shift = knots[deg+1] - knots[0]
-    T = np.diag(np.ones(len(basis)-m), m)
+    # first extrapolate over an extra knot interval
+    t_extra = knots[-1] - knots[-deg-2]
+    T_extr = extrapolate_T(basis, t_extra)
+    m = T_extr.shape[0] - len(basis)  # number of repeating internal knots
+    knots = np.r_[knots[:-deg-1], knots[-1]*np.ones(m),
+                  (knots[-1]+t_extra)*np.ones(deg+1)]
+    # then drop the first knot interval
+    t_shift = knots[deg+1]
+    T = np.eye(len(basis), len(basis)+m, m)
     _T = np.eye(deg+1)
-    for k in range(deg):
+    for k in range(deg+1-m):
         _t = np.zeros((deg+1+k+1, deg+1+k))
         for j in range(deg+1+k+1):
             if j >= deg+1:
@@ -185,10 +189,8 @@ def shiftoverknot_T(basis):
                 _t[j, j-1] = (knots[j+deg-k]-t_shift)/(knots[j+deg-k]-knots[j])
                 _t[j, j] = (t_shift-knots[j])/(knots[j+deg-k]-knots[j])
         _T = _t.dot(_T)
-    T[:deg, :deg+1] = _T[deg+1:, :]
-    T_extr = extrapolate_T(basis, knots[-1] - knots[-deg-2])
-    T[-(deg+1):, -(deg+1):] = T_extr[-(deg+1):, -(deg+1):]
-    return T
+    T[:deg+1-m, :deg+1] = _T[deg+1:, :]
+    return T.dot(T_extr)
 
 
 def shift_knot1_fwd(cfs, basis, t_shift):
@@ -249,7 +251,7 @@ def shiftfirstknot_T(basis, t_shift, inverse=False):
             Tinv[i, i] = 1./T[i, i]
             for j in range(deg, i, -1):
                 Tinv[i, j] = (-1./T[i, i])*sum([T[i, k]*Tinv[k, j]
-                                                for k in range(i+1, deg+2)])
+                                                for k in range(i+1, deg+1)])
         return T, Tinv
     else:
         return T
-- 
2.43.0


From 08f64db5898fada143272178363673d35ff537d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 03/67] fix: joining splines preserves every segment

The continuity test was sign dependent and its outcome was reused for all later
components and joints; connection points coinciding with a greville point were
counted twice, fully continuous joints were placed at the wrong knot and a
discontinuous joint made the system of a later one singular.
---
 omgtools/basics/spline_extra.py | 46 ++++++++++-----------------------
 1 file changed, 14 insertions(+), 32 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index 8f4d24e..5e6a0ec 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -324,9 +324,10 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # all concatenated splines should be of the same degree
                 raise ValueError(
                     'Splines at index ' + l + 'should have same degree.')
+            n_ins = n_insert  # keep n_insert from input
             if n_insert is None:
                 # check continuity, n_insert can be different for each l
-                n_insert = degree[l]+1  # starts at max value
+                n_ins = degree[l]+1  # starts at max value
                 for d in range(degree[l]+1):
                     # use ipopt default tolerance as a treshold for check (1e-3)
                     # give dimensions, to compare using the same time scale
@@ -337,15 +338,13 @@ def concat_splines(segments, segment_times, n_insert=None):
                     # this seems due to the finite tolerance of ipopt? and due to the fact that these are floating point numbers
                     val1 = segments[k][l].scale(segment_times[k], shift = prev_time).derivative(d)(prev_time)
                     val2 = prev_segment[l].derivative(d)(prev_time)
-                    if ( abs(val1 - val2)*0.5/(val1 + val2) <= 1e-3):
+                    if abs(val1 - val2)*0.5 <= 1e-3*(abs(val1) + abs(val2)):
                         # more continuity = insert less knots
-                        n_insert -= 1
+                        n_ins -= 1
                     else:
-                        # spline values were not equal, stop comparing and use latest n_insert value
+                        # spline values were not equal, stop comparing and use latest n_ins value
                         break
-            # else:  # keep n_insert from input
-
-            if n_insert!= degree[l]+1:
+            if n_ins != degree[l]+1:
                 # concatenation requires re-computing the coefficients and/or adding extra knots
                 # here we make the knot vector and coeffs of the total spline (the final output),
                 # but we also compute the knot vector and coeffs for concatenating just two splines,
@@ -354,41 +353,24 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # and afterwards segments 2 and 3, this happens due to the main for loop
 
                 # make total knot vector
-                end_idx = len(knots[l])-(degree[l]+1)+n_insert
+                end_idx = len(knots[l])-(degree[l]+1)+n_ins
                 knots[l] = np.r_[
                     knots[l][:end_idx], s.basis.knots[degree[l]+1:]*segment_times[k] + knots[l][-1]]  # last term = time shift
 
                 # make knot vector for two segments to concatenate
-                end_idx_concat = len(prev_segment[l].basis.knots)-(degree[l]+1)+n_insert
+                connection = prev_segment[l].basis.knots[-1]
+                end_idx_concat = len(prev_segment[l].basis.knots)-(degree[l]+1)+n_ins
                 knots1 = prev_segment[l].basis.knots[:end_idx_concat]
-                knots2 = s.basis.knots[degree[l]+1:]*segment_times[k] + knots1[-1]  # last term = time shift
+                knots2 = s.basis.knots[degree[l]+1:]*segment_times[k] + connection  # last term = time shift
                 knots_concat = np.r_[knots1, knots2]
 
                 # make union basis for two segments to concatenate
                 basis_concat = BSplineBasis(knots_concat, degree[l])
-                grev_bc = basis_concat.greville()
-                # shift first and last greville point inwards, to avoid numerical problems,
-                # in which the spline evaluates to 0 because the evaluation lies just outside the domain
-                grev_bc[0] = grev_bc[0] + (grev_bc[1]-grev_bc[0])*0.01
-                grev_bc[-1] = grev_bc[-1] - (grev_bc[-1]-grev_bc[-2])*0.01
-                # evaluate basis on its greville points
-                eval_bc = basis_concat(grev_bc).toarray()
-
-                # only the last degree coeffs of segment1 and the first degree coeffs
-                # of segment2 will change --> we can reduce the size of the system to solve
-                # Todo: implement this reduction
-
-                # first give the segment dimensions, by scaling it and shifting it appropriatly
-                # this is necessary, since by default the domain is [0,1]
-                # then evaluate the splines that you want to concatenate on greville points
-                # of union basis, will give 0 outside their domain
-                s_1 = prev_segment[l](grev_bc)
-                s_2 = segments[k][l].scale(segment_times[k], shift = prev_time)(grev_bc)
-                # sum to get total evaluation
-                eval_sc = s_1 + s_2
-
+                # inserting the connection knot until its multiplicity is degree+1
+                # splits the spline on this basis in the two original segments
+                T, _ = knot_insertion_T(basis_concat, [connection]*(degree[l]+1-n_ins))
                 # solve system to find new coeffs
-                coeffs_concat = la.solve(eval_bc, eval_sc)
+                coeffs_concat = la.lstsq(T, np.r_[prev_segment[l].coeffs, s.coeffs])[0]
                 # save new coefficients
                 coeffs[l] = coeffs_concat
             else:
-- 
2.43.0


From 2c8c0f68cb3c3dcc9d8311b7df1c1f8ca12138f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 04/67] fix: evaluate the shutdown condition of constraints

exec() cannot bind a local variable in Python 3, so a constraint with a
shutdown condition raised a NameError on the first update of the bounds.
---
 omgtools/basics/optilayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/basics/optilayer.py b/omgtools/basics/optilayer.py
index 75a23aa..53e7e49 100644
--- a/omgtools/basics/optilayer.py
+++ b/omgtools/basics/optilayer.py
@@ -313,7 +313,7 @@ class OptiFather(object):
     def update_bounds(self, current_time):
         lb, ub = copy.deepcopy(self._lb), copy.deepcopy(self._ub)
         for name, shutdown in self._constraint_shutdown.items():
-            exec('shutdown_fun = lambda t: %s' % shutdown)
+            shutdown_fun = eval('lambda t: %s' % shutdown)
             if shutdown_fun(current_time):
                 lb[name], ub[name] = -inf, +inf
         return lb, ub
-- 
2.43.0


From 282493da9ef9f3b4ceabecfa7e271bab53ad6cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 05/67] fix: shift the splines of segments with more than one
 digit

Only the first digit after 'seg' was read, so shifting segment 1 also
shifted the variables of segments 10, 11, ...
---
 omgtools/basics/optilayer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omgtools/basics/optilayer.py b/omgtools/basics/optilayer.py
index 53e7e49..f294acd 100644
--- a/omgtools/basics/optilayer.py
+++ b/omgtools/basics/optilayer.py
@@ -33,6 +33,7 @@ import time
 import numpy as np
 import copy
 import os
+import re
 import shutil
 import collections as col
 
@@ -479,7 +480,8 @@ class OptiFather(object):
             for name, spl in child._splines_prim.items():
                 if name in child._variables:
                     # check if n in 'segn' is in the index list of segments to shift
-                    if ('seg' in name and int(name[name.index('seg')+3]) in seg_shift):
+                    seg = re.search(r'seg(\d+)', name)
+                    if seg and int(seg.group(1)) in seg_shift:
                         basis = spl['basis']
                         init = spl['init']
                         if init is not None:
-- 
2.43.0


From 21a8189ae553a1e352be4953811bf8778aaacac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 06/67] fix: fixed T problems refuse user-defined knots

define_knots(knots=..) kept the number of intervals of the default knots,
so the check for a constant knot interval never triggered.
---
 omgtools/vehicles/vehicle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 56333cc..70d9b2c 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -84,6 +84,7 @@ class Vehicle(OptiChild, PlotLayer):
                 0., 1., self.knot_intervals+1), np.ones(self.degree)]
         if 'knots' in kwargs:
             self.knots = kwargs['knots']
+            self.knot_intervals = None  # no constant knot interval
         self.basis = BSplineBasis(self.knots, self.degree)
 
     def set_init_spline_values(self, values, n_seg=1):
-- 
2.43.0


From d4877789d765f31cdec2dde9b175f05a01931fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 07/67] fix: keep the fixed T plan in place when knots are
 passed

The modulo of two floats is off by a whole knot interval when the knot time
is not a binary fraction (2.1 % 0.7 = 0.7) while the splines are shifted, and
the splines were shifted once when an update passed more than one knot.
---
 omgtools/problems/point2point.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 2381500..6cd1fda 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -174,7 +174,7 @@ class FixedTPoint2point(Point2pointProblem):
     def set_parameters(self, current_time):
         parameters = Point2pointProblem.set_parameters(self, current_time)
         if self.init_time is None:
-            parameters[self]['t'] = np.round(current_time, 6) % self.knot_time
+            parameters[self]['t'] = self.get_time_in_interval(current_time)
         else:
             parameters[self]['t'] = self.init_time
         parameters[self]['T'] = self.options['horizon_time']
@@ -184,13 +184,21 @@ class FixedTPoint2point(Point2pointProblem):
     # Deploying related functions
     # ========================================================================
 
+    def get_knot_interval(self, time):
+        # number of knots that are passed at time (relative to the start time)
+        return int(np.round(time/self.knot_time, 6))
+
+    def get_time_in_interval(self, time):
+        # time elapsed since the last passed knot
+        return max(0., np.round(time - self.get_knot_interval(time)*self.knot_time, 6))
+
     def init_step(self, current_time, update_time):
         # transform spline variables
         if not hasattr(self, 'current_time_prev'):
             self.current_time_prev = 0
-        interval_prev = int(np.round(self.current_time_prev/self.knot_time, 6))
-        interval_now = int(np.round(current_time/self.knot_time, 6))
-        if (interval_prev < interval_now): # passed a knot
+        interval_prev = self.get_knot_interval(self.current_time_prev)
+        interval_now = self.get_knot_interval(current_time)
+        for _ in range(interval_prev, interval_now): # for each passed knot
             self.father.transform_primal_splines(lambda coeffs, basis, T:
                                                  T.dot(coeffs))
             # self.father.transform_dual_splines(lambda coeffs, basis, T:
@@ -217,7 +225,7 @@ class FixedTPoint2point(Point2pointProblem):
             # its time horizon lies in the past. Therefore, we need to pass the
             # current time relatively to the begin of this time horizon. In this
             # way, only the future, relevant, part will be saved/plotted.
-            rel_current_time = np.round(current_time-self.start_time, 6) % self.knot_time
+            rel_current_time = self.get_time_in_interval(current_time-self.start_time)
         else:
             rel_current_time = self.init_time
         # store trajectories in vehicles
@@ -235,7 +243,7 @@ class FixedTPoint2point(Point2pointProblem):
     def simulate(self, current_time, simulation_time, sample_time):
         horizon_time = self.options['horizon_time']
         if self.init_time is None:
-            rel_current_time = np.round(current_time-self.start_time, 6) % self.knot_time
+            rel_current_time = self.get_time_in_interval(current_time-self.start_time)
         else:
             rel_current_time = self.init_time
         if horizon_time - rel_current_time < simulation_time:
@@ -244,7 +252,7 @@ class FixedTPoint2point(Point2pointProblem):
         Problem.simulate(self, current_time, simulation_time, sample_time)
 
     def compute_partial_objective(self, current_time, update_time):
-        rel_current_time = np.round(current_time-self.start_time, 6) % self.knot_time
+        rel_current_time = self.get_time_in_interval(current_time-self.start_time)
         horizon_time = self.options['horizon_time']
         t0 = rel_current_time/horizon_time
         t1 = t0 + update_time/horizon_time
-- 
2.43.0


From 294bd00d676ad25e690473af8797f7c4529b0f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 08/67] fix: start the free T initial guess from the remaining
 part of the plan

The start time was subtracted twice, so the plan was not shifted when the
problem does not start at time 0, and the shift was scaled with the remaining
time instead of the duration of the plan.
---
 omgtools/problems/point2point.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 6cd1fda..4c6fb5c 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -360,7 +360,7 @@ class FreeTPoint2point(Point2pointProblem):
         return Point2pointProblem.stop_criterium(self, current_time, update_time)
 
     def init_step(self, current_time, update_time):
-        if (current_time - self.start_time) > 0:
+        if current_time > 0:  # current_time is relative to start_time
             T = self.father.get_variables(self, 'T')[0][0]
             # check if almost arrived, if so lower the update time
             if T < 2*update_time:
@@ -372,7 +372,7 @@ class FreeTPoint2point(Point2pointProblem):
             # to goal position at target_time. Approximate/Represent this spline in
             # a new basis with new equidistant knots.
             self.father.transform_primal_splines(
-                lambda coeffs, basis: shift_spline(coeffs, update_time/target_time, basis))
+                lambda coeffs, basis: shift_spline(coeffs, update_time/T, basis))
             self.father.set_variables(target_time, self, 'T')
 
     def compute_partial_objective(self, current_time):
-- 
2.43.0


From b304879f9008774c7dfcfe36d3db0bd72e8364cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 09/67] fix: shift splines on bases with non-equidistant knots

The shifted coefficients were computed for equidistant knots while they are
used with the knots of the basis.
---
 omgtools/basics/spline_extra.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index 5e6a0ec..8e300c2 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -86,14 +86,11 @@ def definite_integral(spline, a, b):
 
 
 def shift_spline(coeffs, t_shift, basis):
-    # Extract spline piece in [t_shift, T] and express it in an equidistant
-    # basis. This is not exact as de knot positions change.
-    n_knots = len(basis) - basis.degree + 1
+    # Extract spline piece in [t_shift, T] and express it in the same basis
+    # rescaled to that piece. This is not exact as de knot positions change.
     knots = basis.knots
     degree = basis.degree
-    knots2 = np.r_[t_shift*np.ones(degree),
-                   np.linspace(t_shift, knots[-1], n_knots),
-                   knots[-1]*np.ones(degree)]
+    knots2 = t_shift + (knots[-1]-t_shift)*(knots-knots[0])/(knots[-1]-knots[0])
     basis2 = BSplineBasis(knots2, degree)
     T_tf = basis2.transform(basis)
     return T_tf.dot(coeffs)
-- 
2.43.0


From ede34423953ea4e0af58dd99299a83c267e4c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 10/67] fix: count the samples of an update without truncation
 errors

0.29/0.01 = 28.999.. was truncated to 28, so the integrated state and the
stored trajectories missed a sample with respect to the other signals.
---
 omgtools/vehicles/vehicle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 70d9b2c..0c86557 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -394,7 +394,7 @@ class Vehicle(OptiChild, PlotLayer):
             self.traj_storage = {}
             self.traj_storage_kn = {}
             self.pred_storage = {}
-        repeat = int(simulation_time/sample_time)
+        repeat = int(np.round(simulation_time/sample_time, 6))
         self._add_to_memory(self.traj_storage, self.trajectories, repeat)
         self._add_to_memory(self.traj_storage_kn, self.trajectories_kn, repeat)
         self._add_to_memory(self.pred_storage, self.prediction, repeat)
@@ -413,7 +413,7 @@ class Vehicle(OptiChild, PlotLayer):
     def integrate_ode(self, state0, input, integration_time, sample_time, ode=None):
         if ode is None:
             ode = self._ode
-        n_samp = int(integration_time/sample_time)+1
+        n_samp = int(np.round(integration_time/sample_time, 6))+1
         time_axis = np.linspace(0., (n_samp-1)*sample_time, n_samp)
         # make interpolation function which returns the input at a certain time
         time_interp = np.linspace(
-- 
2.43.0


From 56b4dfa0766b97a09c9d06ac4237557bd2b987dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 11/67] fix: let the simulator continue at the end of the
 recorded signals

After a run the current time was one sample behind the recorded signals, so a
next run or sleep recorded the last time instant twice, and a final update in
which nothing is simulated still advanced the time.
---
 omgtools/execution/simulator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index 565daa3..8baa04c 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -44,9 +44,8 @@ class Simulator:
             ### adapted ###
             if (stop or self.update_time - float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)) > self.sample_time:
                 update_time = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
-                 # correcting for first time
-                 # avoid negative update times
-                self.update_timing(max(0,update_time-self.sample_time))
+                # avoid negative update times
+                self.update_timing(max(0, update_time))
             else:
                 self.update_timing()
 
@@ -103,7 +102,7 @@ class Simulator:
         self.time = np.r_[0.]
 
     def update_timing(self, update_time=None):
-        update_time = self.update_time if not update_time else update_time
+        update_time = self.update_time if update_time is None else update_time
         self.current_time += update_time
         n_samp = int(np.round(update_time/self.sample_time, 6))
         # n_samp = max(0, int(np.round(update_time/self.sample_time, 6)))
-- 
2.43.0


From 8b0e12bd7d7ad3429a6fdd00df6979b1ea4c23cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 12/67] fix: simulate the update time passed to Simulator.step

step() advanced the time by its argument (default 0.1 s) while it simulated
the update time of the simulator.
---
 omgtools/execution/simulator.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index 8baa04c..5d2f5e7 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -60,8 +60,8 @@ class Simulator:
                 signals[str(vehicle)] = vehicle.signals
         return trajectories, signals
 
-    def step(self, update_time=0.1):
-        stop = self.update()
+    def step(self, update_time=None):
+        stop = self.update(update_time)
         if stop:
             update_time = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
             self.update_timing(update_time)
@@ -88,13 +88,14 @@ class Simulator:
                 curr_state[str(vehicle)] = vehicle.signals['state'][:,-1]
         return curr_state, self.current_time, motion_time, stop, trajectories, signals
 
-    def update(self):
+    def update(self, update_time=None):
+        update_time = self.update_time if update_time is None else update_time
         # update deployer
-        self.deployer.update(self.current_time)
+        self.deployer.update(self.current_time, update_time=update_time)
         # simulate problem
-        self.problem.simulate(self.current_time, self.update_time, self.sample_time)
+        self.problem.simulate(self.current_time, update_time, self.sample_time)
         # check stop condition
-        stop = self.problem.stop_criterium(self.current_time, self.update_time)
+        stop = self.problem.stop_criterium(self.current_time, update_time)
         return stop
 
     def reset_timing(self):
-- 
2.43.0


From 8ff8d2d50b046588136a7e15f08ed0f1522f883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 13/67] fix: label any number of objects

The recursion over the labels in use exceeded the recursion limit when about
a thousand objects of a kind are created in one process.
---
 omgtools/basics/optilayer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/omgtools/basics/optilayer.py b/omgtools/basics/optilayer.py
index f294acd..beb85cf 100644
--- a/omgtools/basics/optilayer.py
+++ b/omgtools/basics/optilayer.py
@@ -543,11 +543,11 @@ class OptiChild(object):
         index = label_split[-1]
         rest = ''.join(label_split[:-1])
         if index.isdigit():
-            if label in cls._labels:
-                return cls._make_label(rest+str(int(index)+1))
-            else:
-                cls._labels.append(label)
-                return label
+            while label in cls._labels:
+                index = str(int(index)+1)
+                label = rest+index
+            cls._labels.append(label)
+            return label
         else:
             return cls._make_label(label+str(0))
 
-- 
2.43.0


From 4ea88f47cdd7c494ad016ec29686d71ad76114c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 14/67] fix: do not drop a sample of the delay due to rounding

---
 omgtools/execution/deployer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/execution/deployer.py b/omgtools/execution/deployer.py
index 4d8fd64..8f2ea9a 100644
--- a/omgtools/execution/deployer.py
+++ b/omgtools/execution/deployer.py
@@ -58,7 +58,7 @@ class Deployer:
             self.problem.initialize(current_time)
             delay = 0
         else:
-            delay = int((current_time - self.current_time - update_time)/self.sample_time)
+            delay = int(np.round((current_time - self.current_time - update_time)/self.sample_time, 6))
 
         # if the update time + delay is more than the time which is left, leave out the delay
         if hasattr(self.problem.vehicles[0], 'trajectories'):
-- 
2.43.0


From ec4f823704e8518eb90476443524278fd1614af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 15/67] fix: accept a measured state given as a list of
 integers

---
 omgtools/problems/problem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omgtools/problems/problem.py b/omgtools/problems/problem.py
index 9f530a8..57f477d 100644
--- a/omgtools/problems/problem.py
+++ b/omgtools/problems/problem.py
@@ -145,17 +145,17 @@ class Problem(OptiChild, PlotLayer):
         if len(self.vehicles) == 1:
             if not isinstance(states, list):
                 states = [states]
-            elif isinstance(states[0], float):
+            elif np.isscalar(states[0]):
                 states = [states]
         if len(self.vehicles) == 1:
             if not isinstance(inputs, list):
                 inputs = [inputs]
-            elif isinstance(inputs[0], float):
+            elif np.isscalar(inputs[0]):
                 inputs = [inputs]
         if len(self.vehicles) == 1:
             if not isinstance(dinputs, list):
                 dinputs = [dinputs]
-            elif isinstance(dinputs[0], float):
+            elif np.isscalar(dinputs[0]):
                 dinputs = [dinputs]
         if current_time == self.start_time:
             enforce_states = True
-- 
2.43.0


From f3dd9331b391e25f659b9813f319ac16e2ebd396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 16/67] fix: pass the delay on to the problems of a distributed
 problem

---
 omgtools/problems/distributedproblem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/distributedproblem.py b/omgtools/problems/distributedproblem.py
index 88b52e6..57e8905 100644
--- a/omgtools/problems/distributedproblem.py
+++ b/omgtools/problems/distributedproblem.py
@@ -196,8 +196,12 @@ class DistributedProblem(Problem):
     def predict(self, current_time, predict_time, sample_time, states=None, inputs=None, dinputs=None, delay=0, enforce_states=False, enforce_inputs=False):
         if states is None:
             states = [None for k in range(len(self.problems))]
-        for problem, state in zip(self.problems, states):
-            problem.predict(current_time, predict_time, sample_time, state, delay)
+        if inputs is None:
+            inputs = [None for k in range(len(self.problems))]
+        if dinputs is None:
+            dinputs = [None for k in range(len(self.problems))]
+        for problem, state, input, dinput in zip(self.problems, states, inputs, dinputs):
+            problem.predict(current_time, predict_time, sample_time, state, input, dinput, delay, enforce_states, enforce_inputs)
 
     # ========================================================================
     # Simulation related functions
-- 
2.43.0


From d9efd1f16f1400e8f60d4e114f77de7b86dfed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 17/67] fix: start deployed trajectories of Dubins, bicycle and
 AGV where the vehicle will be

---
 omgtools/vehicles/agv.py     |  6 +++---
 omgtools/vehicles/bicycle.py | 10 +++++-----
 omgtools/vehicles/dubins.py  | 10 +++++-----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index 4c2efa5..85bedd0 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -248,10 +248,10 @@ class AGV(Vehicle):
         ddtg_ha = tg_ha.derivative(2)
         dx = v_til*(1-tg_ha**2)
         dy = v_til*(2*tg_ha)
-        if not hasattr(self, 'signals'):  # first iteration
+        if not hasattr(self, 'signals'):  # first iteration or not simulated
             dx_int, dy_int = running_integral(dx), running_integral(dy)
-            x = dx_int - dx_int(time[0]) + self.pose0[0]
-            y = dy_int - dy_int(time[0]) + self.pose0[1]
+            x = dx_int - dx_int(time[0]) + self.prediction['state'][0]
+            y = dy_int - dy_int(time[0]) + self.prediction['state'][1]
         else:
             dx_int, dy_int = running_integral(dx), running_integral(dy)  # current state
             x = dx_int - dx_int(time[0]) + self.signals['state'][0, -1]
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index cec332b..d3095d3 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -294,9 +294,9 @@ class Bicycle(Vehicle):
         ddtg_ha = tg_ha.derivative(2)
         dx = v_til*(1-tg_ha**2)
         dy = v_til*(2*tg_ha)
-        if not hasattr(self, 'signals'):  # first iteration
-            x = self.integrate_once(dx, self.pose0[0], time[0])
-            y = self.integrate_once(dy, self.pose0[1], time[0])
+        if not hasattr(self, 'signals'):  # first iteration or not simulated
+            x = self.integrate_once(dx, self.prediction['state'][0], time[0])
+            y = self.integrate_once(dy, self.prediction['state'][1], time[0])
             # dx_int, dy_int = running_integral(dx), running_integral(dy)
             # x = dx_int - dx_int(time[0]) + self.pose0[0]
             # y = dy_int - dy_int(time[0]) + self.pose0[1]
@@ -351,8 +351,8 @@ class Bicycle(Vehicle):
             dx2 = concat_splines([dx2], [horizon_time])[0]
             dy2 = concat_splines([dy2], [horizon_time])[0]
             if not hasattr(self, 'signals'): # first iteration
-                x2 = self.integrate_once(dx2, self.pose0[0], time[0])
-                y2 = self.integrate_once(dy2, self.pose0[1], time[0])
+                x2 = self.integrate_once(dx2, self.prediction['state'][0], time[0])
+                y2 = self.integrate_once(dy2, self.prediction['state'][1], time[0])
             else:
                 x2 = self.integrate_once(dx2, self.signals['state'][0, -1], time[0])
                 y2 = self.integrate_once(dy2, self.signals['state'][1, -1], time[0])
diff --git a/omgtools/vehicles/dubins.py b/omgtools/vehicles/dubins.py
index f7aaacc..57167ac 100644
--- a/omgtools/vehicles/dubins.py
+++ b/omgtools/vehicles/dubins.py
@@ -275,9 +275,9 @@ class Dubins(Vehicle):
         dtg_ha = tg_ha.derivative()
         dx = v_til*(1-tg_ha**2)
         dy = v_til*(2*tg_ha)
-        if not hasattr(self, 'signals'):  # first iteration
-            x = self.integrate_once(dx, self.pose0[0], time[0])
-            y = self.integrate_once(dy, self.pose0[1], time[0])
+        if not hasattr(self, 'signals'):  # first iteration or not simulated
+            x = self.integrate_once(dx, self.prediction['state'][0], time[0])
+            y = self.integrate_once(dy, self.prediction['state'][1], time[0])
         else:
             x = self.integrate_once(dx, self.signals['state'][0, -1], time[0])
             y = self.integrate_once(dy, self.signals['state'][1, -1], time[0])
@@ -308,8 +308,8 @@ class Dubins(Vehicle):
             dx2 = concat_splines([dx2], [horizon_time])[0]
             dy2 = concat_splines([dy2], [horizon_time])[0]
             if not hasattr(self, 'signals'): # first iteration
-                x2 = self.integrate_once(dx2, self.pose0[0], time[0])
-                y2 = self.integrate_once(dy2, self.pose0[1], time[0])
+                x2 = self.integrate_once(dx2, self.prediction['state'][0], time[0])
+                y2 = self.integrate_once(dy2, self.prediction['state'][1], time[0])
             else:
                 x2 = self.integrate_once(dx2, self.signals['state'][0, -1], time[0])
                 y2 = self.integrate_once(dy2, self.signals['state'][1, -1], time[0])
-- 
2.43.0


From 6e06769b53203107f353680218906c0032c56401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 18/67] fix: keep the leading vehicle of a trailer up to date
 with the trailer's signals

---
 omgtools/vehicles/trailer.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index fc0648b..07db5ad 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -139,6 +139,7 @@ class Trailer(Vehicle):
                 result = True
         else:  # theta_trT reached or not specified
             result = True
+        self.update_lead_veh()
         result = (self.lead_veh.check_terminal_conditions() and result)  #arrived if lead_veh and trailer checks both True
         return result
 
@@ -175,6 +176,7 @@ class Trailer(Vehicle):
         tg_ha_tr = np.array(sample_splines([tg_ha_tr], time))
         dtg_ha_tr = np.array(sample_splines([dtg_ha_tr], time))
         theta_tr = 2*np.arctan2(tg_ha_tr, 1)
+        self.update_lead_veh()
         signals_veh = self.lead_veh.splines2signals(splines[1:], time)
         x_tr = signals_veh['state'][0, :] - self.l_hitch*np.cos(theta_tr)
         y_tr = signals_veh['state'][1, :] - self.l_hitch*np.sin(theta_tr)
@@ -206,6 +208,15 @@ class Trailer(Vehicle):
         pose_tr = state[:3]
         return np.r_[pose_tr , pose_veh]
 
+    def update_lead_veh(self):
+        # since the leading vehicle is not simulated separately it doesn't get a signals attribute
+        if hasattr(self, 'signals'):
+            signals_veh = {}
+            signals_veh['pose'] = self.signals['pose'][3:, ]
+            signals_veh['state'] = self.signals['state'][3:, ]
+            signals_veh['input'] = self.signals['input']
+            self.lead_veh.update_signals(signals_veh)
+
     def draw(self, t=-1):
         surfaces, lines = [], []
         for shape in self.shapes:
@@ -226,12 +237,6 @@ class Trailer(Vehicle):
             pt2 = self.signals['pose'][:2, t] + (self.l_hitch)*np.array([np.cos(self.signals['pose'][2, t]),
                                                                          np.sin(self.signals['pose'][2, t])])
             lines += [np.array([pt1, pt2]).T]
-        # signals are required for drawing
-        # since this vehicle is not simulated separately it doesn't get a self.signals attribute
-        signals_veh = {}
-        signals_veh['pose'] = self.signals['pose'][3:, ]
-        signals_veh['state'] = self.signals['state'][3:, ]
-        signals_veh['input'] = self.signals['input']
-        self.lead_veh.update_signals(signals_veh)
+        self.update_lead_veh()
         surfaces += self.lead_veh.draw(t)[0]
         return surfaces, lines
-- 
2.43.0


From fb2d6ad8637ec8fe638c49dd2d1ed905eb703b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 19/67] fix: let a trailer restart from its complete state

---
 omgtools/vehicles/trailer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index 07db5ad..4a4a58c 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -96,6 +96,9 @@ class Trailer(Vehicle):
     def set_initial_conditions(self, state, input=None):
         if input is None:
             input = np.zeros(2)
+        if np.size(state) == 6:  # complete state of trailer and leading vehicle
+            self.lead_veh.set_initial_conditions(state[3:], input)
+            state = state[2]
         theta = state
         # add complete state(6 elements) and input(2 elements)
         # [x_tr, y_tr, theta_tr, x_veh, y_veh, theta_veh]
-- 
2.43.0


From 0e43ec8001e2d15a856c5929d3e004bb813c32d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 20/67] fix: compare option values by equality instead of
 identity

---
 omgtools/gui/svg_reader.py            | 2 +-
 omgtools/problems/schedulerproblem.py | 8 ++++----
 omgtools/vehicles/agv.py              | 4 ++--
 omgtools/vehicles/bicycle.py          | 4 ++--
 omgtools/vehicles/holonomic.py        | 8 ++++----
 omgtools/vehicles/holonomic3d.py      | 4 ++--
 omgtools/vehicles/holonomicorient.py  | 4 ++--
 omgtools/vehicles/tool.py             | 4 ++--
 8 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/omgtools/gui/svg_reader.py b/omgtools/gui/svg_reader.py
index f2a5ea3..cf0d9f1 100644
--- a/omgtools/gui/svg_reader.py
+++ b/omgtools/gui/svg_reader.py
@@ -16,7 +16,7 @@ class SVGReader(object):
         if (self.tree.get('width')[-2:] in ['mm', 'px']):  # units millimeter or pixels
             viewbox = self.tree.get('viewBox').split(' ')
             xmin, ymin, xmax, ymax = viewbox
-            if (self.tree.get('width')[-2:] is 'mm'):
+            if (self.tree.get('width')[-2:] == 'mm'):
                 self.width_px = float(xmax) - float(xmin)
                 self.height_px = float(ymax) - float(ymin)
                 self.meter_to_pixel = self.width_px/float(self.tree.get('width')[:-2])
diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 0225a76..6fae4f4 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -81,12 +81,12 @@ class SchedulerProblem(Problem):
         self._n_frames = self.n_frames  # save original value
         self.frame_type = options['frame_type'] if 'frame_type' in options else 'shift'
         # set frame size for frame_type shift
-        if self.frame_type is 'shift':
+        if self.frame_type == 'shift':
             # by default frame size is set to 1/5 of total environment width
             self.frame_size = options['frame_size'] if 'frame_size' in options else environment.room[0]['shape'].width*0.2
             # by default move limit is set to 1/4 of frame size
             self.move_limit = options['move_limit'] if 'move_limit' in options else self.frame_size*0.25
-        if self.frame_type is 'corridor':
+        if self.frame_type == 'corridor':
             # scale up frame with small steps or not
             self.scale_up_fine = options['scale_up_fine'] if 'scale_up_fine' in options else True
             self.l_shape = options['l_shape'] if 'l_shape' in options else False
@@ -391,10 +391,10 @@ class SchedulerProblem(Problem):
         if not frame.endpoint == self.goal_state[:2]:  # remove orientation info
             start = time.time()
             start_position = frame.endpoint  # start at end of current frame
-            if frame.type is 'shift':
+            if frame.type == 'shift':
                 next_frame = ShiftFrame(self.environment, start_position, self.frame_size, self.move_limit,
                                    self.global_path, self.options)
-            elif frame.type is 'corridor':
+            elif frame.type == 'corridor':
                 next_frame = CorridorFrame(self.environment, start_position, self.global_path,
                                    self.veh_size, self.margin, self.options)
 
diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index 85bedd0..f76d233 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -305,7 +305,7 @@ class AGV(Vehicle):
 
     def draw(self, t=-1):
         surfaces = []
-        if self.options['plot_type'] is 'car':
+        if self.options['plot_type'] == 'car':
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(width=self.length/8., height=self.length/10.)
             surfaces += car.draw(self.signals['pose'][:3, t])[0]  # vehicle
@@ -324,7 +324,7 @@ class AGV(Vehicle):
             surfaces += wheel.draw(np.r_[pos_back_l, orient_back])[0]  # back wheel left
             surfaces += wheel.draw(np.r_[pos_back_r, orient_back])[0]  # back wheel right
 
-        if self.options['plot_type'] is 'agv':
+        if self.options['plot_type'] == 'agv':
             # plot approximation of vehicle
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(width=self.length/10., height=self.length/14.)
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index d3095d3..e67b840 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -376,7 +376,7 @@ class Bicycle(Vehicle):
 
     def draw(self, t=-1):
         surfaces = []
-        if self.options['plot_type'] is 'car':
+        if self.options['plot_type'] == 'car':
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(self.length/8., self.length/10.)
             surfaces += car.draw(self.signals['pose'][:3, t])[0]  # vehicle
@@ -395,7 +395,7 @@ class Bicycle(Vehicle):
             surfaces += wheel.draw(np.r_[pos_back_l, orient_back])[0]  # back wheel left
             surfaces += wheel.draw(np.r_[pos_back_r, orient_back])[0]  # back wheel right
 
-        if self.options['plot_type'] is 'bicycle':
+        if self.options['plot_type'] == 'bicycle':
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(self.length/2., self.length/6.)
             surfaces += car.draw(self.signals['pose'][:3, t])[0]  # vehicle
diff --git a/omgtools/vehicles/holonomic.py b/omgtools/vehicles/holonomic.py
index aef5c59..d84bfa1 100644
--- a/omgtools/vehicles/holonomic.py
+++ b/omgtools/vehicles/holonomic.py
@@ -32,7 +32,7 @@ class Holonomic(Vehicle):
             self, n_spl=2, degree=3, shapes=shapes, options=options)
 
         if ((not 'syslimit' in self.options) or  # default choose norm_inf
-                (self.options['syslimit'] is 'norm_inf')):
+                (self.options['syslimit'] == 'norm_inf')):
             # user specified separate velocities for x and y
             self.vxmin = bounds['vxmin'] if 'vxmin' in bounds else -0.5
             self.vymin = bounds['vymin'] if 'vymin' in bounds else -0.5
@@ -51,7 +51,7 @@ class Holonomic(Vehicle):
                 self.axmin = self.aymin = bounds['amin']
             if 'amax' in bounds:
                 self.axmax = self.aymax = bounds['amax']
-        elif self.options['syslimit'] is 'norm_2':
+        elif self.options['syslimit'] == 'norm_2':
             self.vmax = bounds['vmax'] if 'vmax' in bounds else 0.5
             self.amax = bounds['amax'] if 'amax' in bounds else 1.
 
@@ -64,13 +64,13 @@ class Holonomic(Vehicle):
         dx, dy = x.derivative(), y.derivative()
         ddx, ddy = x.derivative(2), y.derivative(2)
         # constrain total velocity
-        if self.options['syslimit'] is 'norm_2':
+        if self.options['syslimit'] == 'norm_2':
             self.define_constraint(
                 (dx**2+dy**2) - (horizon_time**2)*self.vmax**2, -inf, 0.)
             self.define_constraint(
                 (ddx**2+ddy**2) - (horizon_time**4)*self.amax**2, -inf, 0.)
         # constrain local velocity
-        elif self.options['syslimit'] is 'norm_inf':
+        elif self.options['syslimit'] == 'norm_inf':
             self.define_constraint(-dx + horizon_time*self.vxmin, -inf, 0.)
             self.define_constraint(-dy + horizon_time*self.vymin, -inf, 0.)
             self.define_constraint(dx - horizon_time*self.vxmax, -inf, 0.)
diff --git a/omgtools/vehicles/holonomic3d.py b/omgtools/vehicles/holonomic3d.py
index 7ced526..3c76411 100644
--- a/omgtools/vehicles/holonomic3d.py
+++ b/omgtools/vehicles/holonomic3d.py
@@ -47,12 +47,12 @@ class Holonomic3D(Vehicle):
         x, y, z = splines
         dx, dy, dz = x.derivative(), y.derivative(), z.derivative()
         ddx, ddy, ddz = x.derivative(2), y.derivative(2), z.derivative(2)
-        if self.options['syslimit'] is 'norm_2':
+        if self.options['syslimit'] == 'norm_2':
             self.define_constraint(
                 (dx**2+dy**2+dz**2) - (horizon_time**2)*self.vmax**2, -inf, 0.)
             self.define_constraint(
                 (ddx**2+ddy**2+ddz**2) - (horizon_time**4)*self.amax**2, -inf, 0.)
-        elif self.options['syslimit'] is 'norm_inf':
+        elif self.options['syslimit'] == 'norm_inf':
             self.define_constraint(-dx + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(-dy + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(-dz + horizon_time*self.vmin, -inf, 0.)
diff --git a/omgtools/vehicles/holonomicorient.py b/omgtools/vehicles/holonomicorient.py
index 90c7ff1..9a8bc0f 100644
--- a/omgtools/vehicles/holonomicorient.py
+++ b/omgtools/vehicles/holonomicorient.py
@@ -52,12 +52,12 @@ class HolonomicOrient(Vehicle):
         x, y, tg_ha = splines
         dx, dy, dtg_ha = x.derivative(), y.derivative(), tg_ha.derivative()
         ddx, ddy = x.derivative(2), y.derivative(2)
-        if self.options['syslimit'] is 'norm_2':
+        if self.options['syslimit'] == 'norm_2':
             self.define_constraint(
                 (dx**2+dy**2) - (horizon_time**2)*self.vmax**2, -inf, 0.)
             self.define_constraint(
                 (ddx**2+ddy**2) - (horizon_time**4)*self.amax**2, -inf, 0.)
-        elif self.options['syslimit'] is 'norm_inf':
+        elif self.options['syslimit'] == 'norm_inf':
             self.define_constraint(-dx + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(-dy + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(dx - horizon_time*self.vmax, -inf, 0.)
diff --git a/omgtools/vehicles/tool.py b/omgtools/vehicles/tool.py
index 89da6a3..a7760a0 100644
--- a/omgtools/vehicles/tool.py
+++ b/omgtools/vehicles/tool.py
@@ -87,7 +87,7 @@ class Tool(Vehicle):
         dddx, dddy, dddz = x.derivative(3), y.derivative(3), z.derivative(3)  # jerk
 
         # constrain local velocity
-        if self.options['vel_limit'] is 'machining':
+        if self.options['vel_limit'] == 'machining':
             # the machining process is the limiting factor, so limit the total velocity
             # in x- and y-axis combined
             if self.vxmax != 0.:
@@ -99,7 +99,7 @@ class Tool(Vehicle):
                 self.define_constraint(
                     (dz**2) - (horizon_time**2)*self.vzmax**2, -inf, 0., skip=skip)
 
-        elif self.options['vel_limit'] is 'axes':
+        elif self.options['vel_limit'] == 'axes':
             # the axes themselves are the limiting factor, so limit the x- and y- axis separately
             self.define_constraint(-dx + horizon_time*self.vxmin, -inf, 0., skip=skip)
             self.define_constraint(-dy + horizon_time*self.vymin, -inf, 0., skip=skip)
-- 
2.43.0


From 70675bf1724e537df5e95ed1d29fa62bee8525e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 21/67] fix: do not truncate the knot time to milliseconds of
 the horizon

---
 omgtools/problems/point2point.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 4c6fb5c..071c2bc 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -131,8 +131,8 @@ class FixedTPoint2point(Point2pointProblem):
         if self.vehicles[0].knot_intervals is None:
             raise ValueError('A constant knot interval should be used for ' +
                              'a fixed T point2point problem.')
-        self.knot_time = (int(self.options['horizon_time']*1000.) /
-                          self.vehicles[0].knot_intervals) / 1000.
+        self.knot_time = (float(self.options['horizon_time']) /
+                          self.vehicles[0].knot_intervals)
 
     def set_default_options(self):
         Point2pointProblem.set_default_options(self)
-- 
2.43.0


From f3d4dd70e9f05ee17a4fed6ee1fda5b122e8d2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 22/67] fix: limit the angle between trailer and vehicle
 exactly

---
 omgtools/vehicles/trailer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index 4a4a58c..d12052a 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -60,8 +60,9 @@ class Trailer(Vehicle):
                                horizon_time*v_til_veh*(2*tg_ha_veh*(1-tg_ha_tr**2)-(1-tg_ha_veh**2)*2*tg_ha_tr) - horizon_time*eps,
                                -inf, 0.)
         # limit angle between vehicle and trailer
-        self.define_constraint(tg_ha_veh - tg_ha_tr - np.tan(self.tmax/2.), -inf, 0.)
-        self.define_constraint(-tg_ha_veh + tg_ha_tr + np.tan(self.tmin/2.), -inf, 0.)
+        # tan(a-b) = (tan(a)-tan(b))/(1+tan(a)*tan(b))
+        self.define_constraint(tg_ha_veh - tg_ha_tr - (1+tg_ha_veh*tg_ha_tr)*np.tan(self.tmax/2.), -inf, 0.)
+        self.define_constraint(-tg_ha_veh + tg_ha_tr + (1+tg_ha_veh*tg_ha_tr)*np.tan(self.tmin/2.), -inf, 0.)
         # call lead_veh trajectory constraints
         self.lead_veh.define_trajectory_constraints(splines[1: ])
 
-- 
2.43.0


From 2210b2a633a227bc1200ac88205491f2fafdd90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:00 +0000
Subject: [PATCH 23/67] fix: compare the remaining speed with the tolerance in
 the arrival check

---
 omgtools/vehicles/agv.py                | 2 +-
 omgtools/vehicles/bicycle.py            | 2 +-
 omgtools/vehicles/dubins.py             | 2 +-
 omgtools/vehicles/holonomic.py          | 2 +-
 omgtools/vehicles/holonomic1d.py        | 2 +-
 omgtools/vehicles/holonomic3d.py        | 2 +-
 omgtools/vehicles/holonomicorient.py    | 2 +-
 omgtools/vehicles/quadrotor.py          | 2 +-
 omgtools/vehicles/quadrotor3d_simple.py | 2 +-
 omgtools/vehicles/tool.py               | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index f76d233..0dec691 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -193,7 +193,7 @@ class AGV(Vehicle):
         # todo: kicked out state[3] since you cannot impose a steerT for now
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:3, -1] - self.poseT) > tol or
-            np.linalg.norm(self.signals['input'][:, -1])) > tol:
+            np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index e67b840..41fd5bd 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -226,7 +226,7 @@ class Bicycle(Vehicle):
         # todo: kicked out state[3] since you cannot impose a steerT for now
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:3, -1] - self.poseT) > tol or
-            np.linalg.norm(self.signals['input'][:, -1])) > tol:
+            np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/dubins.py b/omgtools/vehicles/dubins.py
index 57167ac..ffe8188 100644
--- a/omgtools/vehicles/dubins.py
+++ b/omgtools/vehicles/dubins.py
@@ -220,7 +220,7 @@ class Dubins(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomic.py b/omgtools/vehicles/holonomic.py
index d84bfa1..5929d0b 100644
--- a/omgtools/vehicles/holonomic.py
+++ b/omgtools/vehicles/holonomic.py
@@ -145,7 +145,7 @@ class Holonomic(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomic1d.py b/omgtools/vehicles/holonomic1d.py
index 66414df..9560557 100644
--- a/omgtools/vehicles/holonomic1d.py
+++ b/omgtools/vehicles/holonomic1d.py
@@ -85,7 +85,7 @@ class Holonomic1D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomic3d.py b/omgtools/vehicles/holonomic3d.py
index 3c76411..8844b84 100644
--- a/omgtools/vehicles/holonomic3d.py
+++ b/omgtools/vehicles/holonomic3d.py
@@ -116,7 +116,7 @@ class Holonomic3D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomicorient.py b/omgtools/vehicles/holonomicorient.py
index 9a8bc0f..6822e9b 100644
--- a/omgtools/vehicles/holonomicorient.py
+++ b/omgtools/vehicles/holonomicorient.py
@@ -138,7 +138,7 @@ class HolonomicOrient(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/quadrotor.py b/omgtools/vehicles/quadrotor.py
index 8033357..2504f73 100644
--- a/omgtools/vehicles/quadrotor.py
+++ b/omgtools/vehicles/quadrotor.py
@@ -104,7 +104,7 @@ class Quadrotor(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['pose'][:2, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['dspl'][:, -1])) > tol:
+                np.linalg.norm(self.signals['dspl'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/quadrotor3d_simple.py b/omgtools/vehicles/quadrotor3d_simple.py
index 22e9214..c13e7ad 100644
--- a/omgtools/vehicles/quadrotor3d_simple.py
+++ b/omgtools/vehicles/quadrotor3d_simple.py
@@ -139,7 +139,7 @@ class SimpleQuadrotor3D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['pose'][:3, -1] - self.positionT) > tol or
-                np.linalg.norm(self.signals['dspl'][:, -1])) > tol:
+                np.linalg.norm(self.signals['dspl'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/tool.py b/omgtools/vehicles/tool.py
index a7760a0..5d83809 100644
--- a/omgtools/vehicles/tool.py
+++ b/omgtools/vehicles/tool.py
@@ -163,7 +163,7 @@ class Tool(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
-- 
2.43.0


From d09fc6ed8ea2a77a5f3ba1e041c3d1336c487098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 24/67] fix: give every vehicle its own deviation from the goal
 in a fixed T problem

---
 omgtools/problems/point2point.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 071c2bc..c6e0cbb 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -151,7 +151,7 @@ class FixedTPoint2point(Point2pointProblem):
     def define_terminal_constraints(self):
         objective = 0.
         self.term_con_len = []
-        for vehicle in self.vehicles:
+        for l, vehicle in enumerate(self.vehicles):
             term_con, term_con_der = vehicle.get_terminal_constraints(
                 vehicle.splines[0])
             if ('no_term_con_der' in self.options and self.options['no_term_con_der']):
@@ -160,7 +160,7 @@ class FixedTPoint2point(Point2pointProblem):
             for k, con in enumerate(term_con):
                 spline, condition = con[0], con[1]
                 g = self.define_spline_variable(
-                    'g'+str(k), 1, basis=spline.basis)[0]
+                    'g'+str(l)+'_'+str(k), 1, basis=spline.basis)[0]
                 objective += definite_integral(g, self.t0, 1.)
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
@@ -259,7 +259,7 @@ class FixedTPoint2point(Point2pointProblem):
         part_objective = 0.
         for v, vehicle in enumerate(self.vehicles):
             for k in range(self.term_con_len[v]):
-                g = self.father.get_variables(self, 'g'+str(k))[0]
+                g = self.father.get_variables(self, 'g'+str(v)+'_'+str(k))[0]
                 part_objective += horizon_time*definite_integral(g, t0, t1)
         self.objective += part_objective
 
@@ -268,7 +268,7 @@ class FixedTPoint2point(Point2pointProblem):
             obj = 0.
             for v, vehicle in enumerate(self.vehicles):
                 for k in range(self.term_con_len[v]):
-                    g = self.father.get_variables(self, 'g'+str(k))[0]
+                    g = self.father.get_variables(self, 'g'+str(v)+'_'+str(k))[0]
                     obj += self.options['horizon_time']*g.integral()
             return obj
         return self.objective
@@ -417,7 +417,7 @@ class FreeEndPoint2point(FixedTPoint2point):
                 else:
                     spline, condition = con[0], con[1]
                 g = self.define_spline_variable(
-                    'g'+str(k), 1, basis=spline.basis)[0]
+                    'g'+str(l)+'_'+str(k), 1, basis=spline.basis)[0]
                 objective += definite_integral(g, self.t0, 1.)
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
-- 
2.43.0


From 8688a20b9b0643b6d7b5bae15e57251f71c4ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 25/67] fix: let vehicles of a free end point problem end at
 rest

---
 omgtools/problems/point2point.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index c6e0cbb..29fbb95 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -386,26 +386,20 @@ class FreeEndPoint2point(FixedTPoint2point):
 
     def __init__(self, fleet, environment, options, free_ind=None):
         FixedTPoint2point.__init__(self, fleet, environment, options)
-        self.free_ind = free_ind
+        self.free_ind = free_ind if free_ind is not None else {}
 
     # ========================================================================
     # Optimization modelling related functions
     # ========================================================================
 
-    def construct(self):
-        if self.free_ind is None:
-            self.free_ind = {}
-            for vehicle in self.vehicles:
-                term_con = vehicle.get_terminal_constraints(vehicle.splines[0])
-                self.free_ind[vehicle] = list(range(len(term_con)))
-        FixedTPoint2point.construct(self)
-
     def define_terminal_constraints(self):
         objective = 0.
         self.term_con_len = []
         for l, vehicle in enumerate(self.vehicles):
             term_con, term_con_der = vehicle.get_terminal_constraints(
                 vehicle.splines[0])
+            if vehicle not in self.free_ind:  # by default everything is free
+                self.free_ind[vehicle] = list(range(len(term_con)))
             conditions = self.define_variable(
                 'conT'+str(l), len(self.free_ind[vehicle]))
             cnt = 0
@@ -422,5 +416,6 @@ class FreeEndPoint2point(FixedTPoint2point):
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
             for con in term_con_der:
+                spline, condition = con[0], con[1]
                 self.define_constraint(spline(1.) - condition, 0., 0.)
         self.define_objective(objective)
-- 
2.43.0


From 699af52e1b069163414f67b84046ed59c5d29f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 26/67] fix: arrival of a 3D quadrotor requires it to stand
 still

---
 omgtools/vehicles/quadrotor3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/vehicles/quadrotor3d.py b/omgtools/vehicles/quadrotor3d.py
index 9d87896..f0b90ef 100755
--- a/omgtools/vehicles/quadrotor3d.py
+++ b/omgtools/vehicles/quadrotor3d.py
@@ -200,7 +200,7 @@ class Quadrotor3D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['pose'][:3, -1] - self.poseT[:3]) > tol or
-                np.linalg.norm(self.signals['input'][:, -1]) - self.g > tol):
+                np.linalg.norm(np.r_[self.signals['state'][3:6, -1], self.signals['input'][0, -1] - self.g]) > tol):
             return False
         else:
             return True
-- 
2.43.0


From 167f8a9c254d2b2a55a49c7a6ed9a5bc61899356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 27/67] fix: transform between bases with short knot intervals

---
 omgtools/basics/spline.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omgtools/basics/spline.py b/omgtools/basics/spline.py
index cb16544..3d14d5b 100644
--- a/omgtools/basics/spline.py
+++ b/omgtools/basics/spline.py
@@ -130,6 +130,12 @@ class Basis(object):
         self.knots = np.array(knots)
         self.degree = degree
         self._x = np.linspace(knots[0], knots[-1], NO_POINTS)
+        # short knot intervals need their own evaluation points
+        step = (knots[-1] - knots[0])/(NO_POINTS - 1)
+        n_min = 2*(degree + 1)
+        for k0, k1 in zip(self.knots[:-1], self.knots[1:]):
+            if 0 < k1 - k0 < n_min*step:
+                self._x = np.union1d(self._x, np.linspace(k0, k1, n_min))
 
     def __len__(self):
         return len(self.knots) - self.degree - 1
-- 
2.43.0


From fb2e39734b22a7759858b861922d3eb66d9413b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 28/67] fix: keep the leading vehicle of a trailer clear of
 obstacles

---
 omgtools/environment/environment.py | 8 ++++----
 omgtools/vehicles/trailer.py        | 3 +++
 omgtools/vehicles/vehicle.py        | 4 ++++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/omgtools/environment/environment.py b/omgtools/environment/environment.py
index dd6d9fd..88b20cc 100644
--- a/omgtools/environment/environment.py
+++ b/omgtools/environment/environment.py
@@ -120,7 +120,7 @@ class Environment(OptiChild, PlotLayer):
                 obs_to_add = room['obstacles']
             else:
                 obs_to_add = self.obstacles
-            for k, shape in enumerate(vehicle.shapes):
+            for k, shape in enumerate(vehicle.get_shapes()):
                 hyp_veh[shape] = []
                 for l, obstacle in enumerate(obs_to_add):
                     # Todo: is it a problem to call obstacle.init multiple times?
@@ -149,7 +149,7 @@ class Environment(OptiChild, PlotLayer):
         # Todo: added for idx in range(vehicles[0].n_seg) loop, okay?
         # For now supposed that all vehicles have the same amount of segments
         for idx in range(vehicles[0].n_seg):
-            hyp_veh = {veh: {sh: [] for sh in veh.shapes} for veh in vehicles}
+            hyp_veh = {veh: {sh: [] for sh in veh.get_shapes()} for veh in vehicles}
             for k in range(len(vehicles)):
                 for l in range(k+1, len(vehicles)):
                     veh1 = vehicles[k]
@@ -161,8 +161,8 @@ class Environment(OptiChild, PlotLayer):
                         degree = 1
                         knots = np.r_[np.zeros(degree), np.union1d(veh1.knots[veh1.degree:-veh1.degree], veh2.knots[veh2.degree:-veh2.degree]), np.ones(degree)]
                         basis = BSplineBasis(knots, degree)
-                        for kk, shape1 in enumerate(veh1.shapes):
-                            for ll, shape2 in enumerate(veh2.shapes):
+                        for kk, shape1 in enumerate(veh1.get_shapes()):
+                            for ll, shape2 in enumerate(veh2.get_shapes()):
                                 a = self.define_spline_variable(
                                     'a'+'_'+veh1.label+'_'+'seg'+str(idx)+'_'+str(kk)+'_'+veh2.label+'_'+str(ll), self.n_dim, basis=basis)
                                 b = self.define_spline_variable(
diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index d12052a..be7c614 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -44,6 +44,9 @@ class Trailer(Vehicle):
     def init(self):
         self.lead_veh.init()
 
+    def get_shapes(self):
+        return self.shapes + self.lead_veh.get_shapes()
+
     def define_trajectory_constraints(self, splines, horizon_time=None):
         if horizon_time is None:
             horizon_time = self.define_symbol('T')  # motion time
diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 0c86557..be6861f 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -87,6 +87,10 @@ class Vehicle(OptiChild, PlotLayer):
             self.knot_intervals = None  # no constant knot interval
         self.basis = BSplineBasis(self.knots, self.degree)
 
+    def get_shapes(self):
+        # all shapes that have to avoid obstacles and other vehicles
+        return self.shapes
+
     def set_init_spline_values(self, values, n_seg=1):
         # first initialize as empty list
         self.init_spline_values = [0]*n_seg
-- 
2.43.0


From f9133d531006e77a805f205e1be0d5827bc339c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 29/67] fix: advance the simulator's clock over what a clipped
 update simulated

---
 omgtools/execution/simulator.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index 5d2f5e7..2e85c78 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -41,13 +41,7 @@ class Simulator:
         stop = False
         while not stop:
             stop = self.update()
-            ### adapted ###
-            if (stop or self.update_time - float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)) > self.sample_time:
-                update_time = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
-                # avoid negative update times
-                self.update_timing(max(0, update_time))
-            else:
-                self.update_timing()
+            self.advance(stop)
 
         self.problem.final()
         # return trajectories and signals
@@ -62,12 +56,9 @@ class Simulator:
 
     def step(self, update_time=None):
         stop = self.update(update_time)
+        self.advance(stop, update_time)
         if stop:
-            update_time = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
-            self.update_timing(update_time)
             self.problem.final()
-        else:
-            self.update_timing(update_time)
         # return trajectories and signals
         trajectories, signals, curr_state = {}, {}, {}
         # determine remaining motion time
@@ -98,6 +89,17 @@ class Simulator:
         stop = self.problem.stop_criterium(self.current_time, update_time)
         return stop
 
+    def advance(self, stop, update_time=None):
+        # advance over the update that was just simulated: this can be shorter
+        # than the update time when the trajectory reached its end
+        update_time = self.update_time if update_time is None else update_time
+        simulated_time = float(self.problem.vehicles[0].signals['time'][0, -1] - self.current_time)
+        if stop or simulated_time < update_time - 0.5*self.sample_time:
+            # avoid negative update times
+            self.update_timing(max(0, simulated_time))
+        else:
+            self.update_timing(update_time)
+
     def reset_timing(self):
         self.current_time = 0.
         self.time = np.r_[0.]
-- 
2.43.0


From 0666c442a9551ebb5df284f91e1c37ead7fcc1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 30/67] fix: collision avoidance of vehicles with more than one
 shape crashed

---
 omgtools/vehicles/agv.py     | 2 +-
 omgtools/vehicles/bicycle.py | 2 +-
 omgtools/vehicles/dubins.py  | 2 +-
 omgtools/vehicles/vehicle.py | 6 ++++--
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index 0dec691..7889516 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -234,7 +234,7 @@ class AGV(Vehicle):
         y = y_int-evalspline(y_int, self.t/horizon_time) + self.pos0[1]
         # for circular vehicle, no tg_ha needs to be taken into account in collision avoidance constraints.
         # so don't pass it on then
-        if isinstance(self.shapes[0], Circle):
+        if all(isinstance(shape, Circle) for shape in self.shapes):
             self.define_collision_constraints_2d(hyperplanes, environment, [x, y], horizon_time)
         else:  # tg_ha is required for collision avoidance
             self.define_collision_constraints_2d(hyperplanes, environment, [x, y], horizon_time, tg_ha=tg_ha)
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index 41fd5bd..4f1f69b 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -272,7 +272,7 @@ class Bicycle(Vehicle):
             # y = y_int-evalspline(y_int, self.t/horizon_time) + self.pos0[1]
         # for circular vehicle, no tg_ha needs to be taken into account in collision avoidance constraints.
         # so don't pass it on then
-        if isinstance(self.shapes[0], Circle):
+        if all(isinstance(shape, Circle) for shape in self.shapes):
             self.define_collision_constraints_2d(hyperplanes, environment, [x, y], horizon_time)
         else:  # tg_ha is required for collision avoidance
             self.define_collision_constraints_2d(hyperplanes, environment, [x, y], horizon_time, tg_ha=tg_ha)
diff --git a/omgtools/vehicles/dubins.py b/omgtools/vehicles/dubins.py
index ffe8188..d536c26 100644
--- a/omgtools/vehicles/dubins.py
+++ b/omgtools/vehicles/dubins.py
@@ -254,7 +254,7 @@ class Dubins(Vehicle):
             y = self.integrate_once(dy, self.pos0[1], self.t, horizon_time)
         # for circular vehicle, no tg_ha needs to be taken into account in collision avoidance constraints.
         # so don't pass it on then
-        if isinstance(self.shapes[0], Circle):
+        if all(isinstance(shape, Circle) for shape in self.shapes):
             self.define_collision_constraints_2d(hyperplanes, environment, [x, y], horizon_time)
         else:  # tg_ha is required for collision avoidance
             self.define_collision_constraints_2d(hyperplanes, environment, [x, y], horizon_time, tg_ha=tg_ha)
diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index be6861f..1a98873 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -130,7 +130,8 @@ class Vehicle(OptiChild, PlotLayer):
         # T = self.define_symbol('T')
         safety_distance = self.options['safety_distance']
         safety_weight = self.options['safety_weight']
-        positions = [positions] if not isinstance(
+        # one position for all shapes, or one per shape
+        positions = [positions]*len(self.shapes) if not isinstance(
             positions[0], list) else positions
         for s, shape in enumerate(self.shapes):
             position = positions[s]
@@ -199,7 +200,8 @@ class Vehicle(OptiChild, PlotLayer):
         t = self.define_symbol('t')
         safety_distance = self.options['safety_distance']
         safety_weight = self.options['safety_weight']
-        positions = [positions] if not isinstance(
+        # one position for all shapes, or one per shape
+        positions = [positions]*len(self.shapes) if not isinstance(
             positions[0], list) else positions
         for s, shape in enumerate(self.shapes):
             position = positions[s]
-- 
2.43.0


From 23a53186d4aebde46aada43e3956568bd461ec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:21 +0000
Subject: [PATCH 31/67] fix: safety distance violations of different obstacles,
 vehicles or segments shared one variable

---
 omgtools/environment/environment.py |  4 ++--
 omgtools/vehicles/vehicle.py        | 14 ++++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/omgtools/environment/environment.py b/omgtools/environment/environment.py
index 88b20cc..93d428f 100644
--- a/omgtools/environment/environment.py
+++ b/omgtools/environment/environment.py
@@ -131,9 +131,9 @@ class Environment(OptiChild, PlotLayer):
                         if obstacle not in hyp_obs:
                             hyp_obs[obstacle] = []
                         a = self.define_spline_variable(
-                            'a'+'_'+vehicle.label+'_'+'seg'+str(idx)+'_'+str(k)+str(l), obstacle.n_dim, basis=basis)
+                            'a'+'_'+vehicle.label+'_'+'seg'+str(idx)+'_'+str(k)+'_'+str(l), obstacle.n_dim, basis=basis)
                         b = self.define_spline_variable(
-                            'b'+'_'+vehicle.label+'_'+'seg'+str(idx)+'_'+str(k)+str(l), 1, basis=basis)[0]
+                            'b'+'_'+vehicle.label+'_'+'seg'+str(idx)+'_'+str(k)+'_'+str(l), 1, basis=basis)[0]
                         self.define_constraint(
                             sum([a[p]*a[p] for p in range(obstacle.n_dim)])-1, -inf, 0.)
                         if self.n_dim == 3 and obstacle.n_dim == 2:
diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 1a98873..35d91a2 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -124,6 +124,14 @@ class Vehicle(OptiChild, PlotLayer):
             self.splines.append(spline)
         return self.splines
 
+    def define_softening(self):
+        # every hyperplane (also those of another segment or another vehicle)
+        # has its own violation of the safety distance
+        k = 0
+        while 'eps_'+str(k) in self._variables:
+            k += 1
+        return self.define_spline_variable('eps_'+str(k))[0]
+
     def define_collision_constraints_2d(self, hyperplanes,
         room, positions, horizon_time, tg_ha=0, offset=0):
         t = self.define_symbol('t')
@@ -142,8 +150,7 @@ class Vehicle(OptiChild, PlotLayer):
                     a, b = hyperplane['a'], hyperplane['b']
                     sl = 1 if 'slack' not in hyperplane else hyperplane['slack']
                     if safety_distance > 0.:
-                        eps = self.define_spline_variable(
-                            'eps_'+str(s)+str(k))[0]
+                        eps = self.define_softening()
                         obj = safety_weight*definite_integral(eps, t/horizon_time, 1.)
                         self.define_objective(obj)
                         self.define_constraint(eps - safety_distance, -inf, 0.)
@@ -215,8 +222,7 @@ class Vehicle(OptiChild, PlotLayer):
                     if safety_distance > 0.:
                         # Todo: remove?
                         t = self.define_symbol('t')
-                        eps = self.define_spline_variable(
-                            'eps_'+str(s)+str(k))[0]
+                        eps = self.define_softening()
                         obj = safety_weight*definite_integral(eps, t/horizon_time, 1.)
                         self.define_objective(obj)
                         self.define_constraint(eps - safety_distance, -inf, 0.)
-- 
2.43.0


From f605dde59989681db48c13b0fe765c2f528b4c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 32/67] fix: predicted velocity of an accelerating obstacle was
 not updated from one segment to the next

---
 omgtools/environment/obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index c34a5de..74f4ad9 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -102,8 +102,9 @@ class ObstaclexD(OptiChild):
                 for horizon_time in horizon_times:
                     for k in range(self.n_dim):
                         self.pos_spline[k] = BSpline(self.basis, vertcat(pos0[k], 0.5*v0[k]*horizon_time + pos0[k], pos0[k] + v0[k]*horizon_time + 0.5*a0[k]*(horizon_time**2)))
-                    # update start position for next segment
+                    # update start position and velocity for next segment
                     pos0 = [self.pos_spline[k](1) for k in range(self.n_dim)]
+                    v0 = v0 + horizon_time*a0
             else:
                 # horizon_times was None
                 # pos spline over time horizon
-- 
2.43.0


From c7c7e024cd4ee51d5ae152178e97d135d07cef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 33/67] fix: multi frame problem with more than one vehicle
 crashed

---
 omgtools/problems/multiframeproblem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/multiframeproblem.py b/omgtools/problems/multiframeproblem.py
index 1327b4d..68e425b 100644
--- a/omgtools/problems/multiframeproblem.py
+++ b/omgtools/problems/multiframeproblem.py
@@ -44,6 +44,7 @@ class MultiFrameProblem(Problem):
 
     def set_default_options(self):
         Problem.set_default_options(self)
+        self.options['inter_vehicle_avoidance'] = False
 
     def set_options(self, options):
         Problem.set_options(self, options)
@@ -72,7 +73,7 @@ class MultiFrameProblem(Problem):
                 vehicle.define_trajectory_constraints(total_splines[frame], self.motion_times[frame])
             self.environment.define_collision_constraints(vehicle, total_splines, self.motion_times)
         if len(self.vehicles) > 1 and self.options['inter_vehicle_avoidance']:
-            self.environment.define_intervehicle_collision_constraints(self.vehicles)
+            self.environment.define_intervehicle_collision_constraints(self.vehicles, self.motion_times)
 
         # constrain spline segments
         self.define_init_constraints()
-- 
2.43.0


From 6522e0c995cfb490e635c55dc19cbc1a5bf524cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:54 +0000
Subject: [PATCH 34/67] fix: more than one bicycle or AGV in a problem made it
 ill-defined

---
 omgtools/vehicles/agv.py     | 3 +--
 omgtools/vehicles/bicycle.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index 7889516..410fab2 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -69,7 +69,7 @@ class AGV(Vehicle):
 
     def init(self):
         self.t = self.define_symbol('t')  # current time of first knot
-        self.pos0 = self.define_symbol('pos0', 2)  # current position
+        self.pos0 = self.define_parameter('pos0', 2)  # current position
 
     def define_trajectory_constraints(self, splines, horizon_time=None):
         if horizon_time is None:
@@ -153,7 +153,6 @@ class AGV(Vehicle):
         tg_haT = self.define_parameter('tg_haT', 1)
         dtg_haT = self.define_parameter('dtg_haT', 1)
         ddtg_haT = self.define_parameter('ddtg_haT', 1)
-        self.define_parameter('pos0', 2)  # starting position for integration
         v_til, tg_ha = splines
         dv_til, dtg_ha = v_til.derivative(), tg_ha.derivative()
         ddtg_ha = tg_ha.derivative(2)
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index 4f1f69b..3e233c9 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -72,7 +72,7 @@ class Bicycle(Vehicle):
 
     def init(self):
         self.t = self.define_symbol('t')  # current time of first knot
-        self.pos0 = self.define_symbol('pos0', 2)  # current position
+        self.pos0 = self.define_parameter('pos0', 2)  # current position
 
     def define_trajectory_constraints(self, splines, horizon_time=None):
         if horizon_time is None:
@@ -181,7 +181,6 @@ class Bicycle(Vehicle):
         tg_haT = self.define_parameter('tg_haT', 1)
         dtg_haT = self.define_parameter('dtg_haT', 1)
         ddtg_haT = self.define_parameter('ddtg_haT', 1)
-        self.define_parameter('pos0', 2)  # starting position for integration
         v_til, tg_ha = splines
         dv_til, dtg_ha = v_til.derivative(), tg_ha.derivative()
         ddtg_ha = tg_ha.derivative(2)
-- 
2.43.0


From 0e9840c2a3c15fa93755bfd7cf4d15538a545041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:32 +0000
Subject: [PATCH 35/67] fix: room half-planes ignored the orientation of the
 room and the vertex order of its shape

---
 omgtools/basics/shape.py     | 9 ++++++++-
 omgtools/vehicles/vehicle.py | 5 +++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/omgtools/basics/shape.py b/omgtools/basics/shape.py
index c394bc3..75e3098 100644
--- a/omgtools/basics/shape.py
+++ b/omgtools/basics/shape.py
@@ -159,8 +159,15 @@ class Polyhedron(Shape2D):
         pos = [0, 0]  # default
         if 'position' in kwargs:  # overwrite default
             pos = kwargs['position']
+        vertices = self.vertices
+        if 'orientation' in kwargs:  # extra rotation of the shape
+            vertices = self.rotate(kwargs['orientation'], vertices)
+        # the normals below point outwards for vertices in clockwise order
+        x, y = vertices
+        if np.sum(x*np.roll(y, -1) - np.roll(x, -1)*y) > 0.:
+            vertices = vertices[:, ::-1]
         vertices = np.hstack(
-            (self.vertices, np.vstack(self.vertices[:, 0])))  # gives e.g. a (2, 4)
+            (vertices, np.vstack(vertices[:, 0])))  # gives e.g. a (2, 4)
         hyperplanes = {}
         for k in range(vertices.shape[1]-1):
             vector = [vertices[0][k+1]-vertices[0][k],
diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 35d91a2..87a5278 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -179,7 +179,8 @@ class Vehicle(OptiChild, PlotLayer):
                 room_limits = []
                 room_limits += [lims[k]+room['position'][k] for k in range(self.n_dim)]
                 if ((isinstance(room['shape'], (Rectangle, Square)) and
-                    room['shape'].orientation == 0.0) and
+                    room['shape'].orientation == 0.0 and
+                    room['orientation'] == 0.0) and
                     (isinstance(shape, Circle) or
                     (isinstance(shape, (Rectangle, Square)) and
                      shape.orientation == 0)) and
@@ -189,7 +190,7 @@ class Vehicle(OptiChild, PlotLayer):
                             self.define_constraint(-(chck[k]+position[k]) + room_limits[k][0] + rad[0], -inf, 0.)
                             self.define_constraint((chck[k]+position[k]) - room_limits[k][1] + rad[0], -inf, 0.)
                 else:
-                    hyp_room = room['shape'].get_hyperplanes(position = room['position'])
+                    hyp_room = room['shape'].get_hyperplanes(position=room['position'], orientation=room['orientation'])
                     for l, chck in enumerate(checkpoints):
                         for hpp in hyp_room.values():
                             con = 0
-- 
2.43.0


From 9a5814e22f8b6a1d731b4fbbbabfd76fbaa1cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:32 +0000
Subject: [PATCH 36/67] fix: room constraints in 3D ignored the radius of the
 vehicle shape

---
 omgtools/vehicles/vehicle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 87a5278..8ec4cf6 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -238,12 +238,12 @@ class Vehicle(OptiChild, PlotLayer):
                 lims = room['shape'].get_canvas_limits()
                 room_limits = []
                 room_limits += [lims[k]+room['position'][k] for k in range(self.n_dim)]
-                for chck in checkpoints:
+                for l, chck in enumerate(checkpoints):
                     for k in range(3):
                         self.define_constraint(-
-                                               (chck[k]+position[k]) + room_limits[k][0], -inf, 0.)
+                                               (chck[k]+position[k]) + room_limits[k][0] + rad[l], -inf, 0.)
                         self.define_constraint(
-                            (chck[k]+position[k]) - room_limits[k][1], -inf, 0.)
+                            (chck[k]+position[k]) - room_limits[k][1] + rad[l], -inf, 0.)
 
     def get_fleet_center(self, splines, rel_pos, substitute=True):
         rel_pos = rel_pos if isinstance(rel_pos,list) else vertsplit(rel_pos)
-- 
2.43.0


From 5284369f8356cc2a243fe124c0292f9306a5ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 37/67] fix: room constraints in 3D treated every room as its
 bounding box

---
 omgtools/basics/shape.py     | 15 +++++++++++++++
 omgtools/vehicles/vehicle.py | 23 ++++++++++++++++-------
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/omgtools/basics/shape.py b/omgtools/basics/shape.py
index 75e3098..a422a7b 100644
--- a/omgtools/basics/shape.py
+++ b/omgtools/basics/shape.py
@@ -367,6 +367,21 @@ class Polyhedron3D(Shape3D):
                 np.array([min_xyz[1], max_xyz[1]]),
                 np.array([min_xyz[2], max_xyz[2]])]
 
+    def get_hyperplanes(self, **kwargs):
+        # one half-plane per face, with the normal pointing outwards
+        pos = np.array(kwargs.get('position', [0., 0., 0.]))
+        orientation = kwargs.get('orientation', [0., 0., 0.])
+        center = self.rotate(orientation, np.mean(self.vertices, axis=1))
+        hyperplanes = {}
+        for k, surface in enumerate(self.surfaces):
+            face = self.rotate(orientation, surface)
+            normal = np.cross(face[:, 1]-face[:, 0], face[:, 2]-face[:, 1])
+            normal = normal/np.linalg.norm(normal)
+            if normal.dot(face[:, 0]-center) < 0.:
+                normal = -normal
+            hyperplanes[k] = {'a': normal, 'b': normal.dot(face[:, 0]+pos)}
+        return hyperplanes
+
 
 class RegularPrisma(Polyhedron3D):
 
diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 8ec4cf6..5cdba47 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -20,7 +20,7 @@
 from ..basics.optilayer import OptiChild
 from ..basics.spline import BSplineBasis
 from ..basics.spline_extra import concat_splines, definite_integral, sample_splines
-from ..basics.shape import Rectangle, Square, Circle
+from ..basics.shape import Rectangle, Square, Circle, Cuboid, Polyhedron3D
 from ..execution.plotlayer import PlotLayer
 from casadi import inf, vertsplit
 from scipy.signal import filtfilt, butter
@@ -238,12 +238,21 @@ class Vehicle(OptiChild, PlotLayer):
                 lims = room['shape'].get_canvas_limits()
                 room_limits = []
                 room_limits += [lims[k]+room['position'][k] for k in range(self.n_dim)]
-                for l, chck in enumerate(checkpoints):
-                    for k in range(3):
-                        self.define_constraint(-
-                                               (chck[k]+position[k]) + room_limits[k][0] + rad[l], -inf, 0.)
-                        self.define_constraint(
-                            (chck[k]+position[k]) - room_limits[k][1] + rad[l], -inf, 0.)
+                if (not isinstance(room['shape'], Polyhedron3D) or
+                    (isinstance(room['shape'], Cuboid) and
+                     not any(room['shape'].orientation) and not any(room['orientation']))):
+                    for l, chck in enumerate(checkpoints):
+                        for k in range(3):
+                            self.define_constraint(-
+                                                   (chck[k]+position[k]) + room_limits[k][0] + rad[l], -inf, 0.)
+                            self.define_constraint(
+                                (chck[k]+position[k]) - room_limits[k][1] + rad[l], -inf, 0.)
+                else:
+                    hyp_room = room['shape'].get_hyperplanes(position=room['position'], orientation=room['orientation'])
+                    for l, chck in enumerate(checkpoints):
+                        for hpp in hyp_room.values():
+                            self.define_constraint(
+                                sum([hpp['a'][k]*(chck[k]+position[k]) for k in range(3)])-hpp['b']+rad[l], -inf, 0.)
 
     def get_fleet_center(self, splines, rel_pos, substitute=True):
         rel_pos = rel_pos if isinstance(rel_pos,list) else vertsplit(rel_pos)
-- 
2.43.0


From 879eac30e2c9b8ce6a14b8ad0906f2b5c63a2a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:29 +0000
Subject: [PATCH 38/67] fix: obstacle simulation could step over a scheduled
 change

---
 omgtools/environment/obstacle.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index 74f4ad9..d7ae2c9 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -221,6 +221,8 @@ class ObstaclexD(OptiChild):
         ind_sorted = np.argsort(time_state)
         state_incr = np.cumsum(state[:, ind_sorted], axis=1)
         time_state = time_state[ind_sorted]
+        # moments at which the motion changes abruptly
+        self.change_times = np.unique(np.r_[time_state, trajectories['input']['time']])
         self.state_incr_interp = interp1d(time_state, state_incr, kind='zero',
                                           bounds_error=False,
                                           fill_value=state_incr[:, -1])
@@ -233,9 +235,8 @@ class ObstaclexD(OptiChild):
             else:
                 self.signals[key] = np.zeros((self.n_dim, 1))
 
-    def _ode(self, state, time):
+    def _ode(self, state, time, state_incr):
         input = self.input_interp(time)
-        state_incr = self.state_incr_interp(time)
         return self.ode(state, input) + np.r_[state_incr[self.n_dim:],
                                               np.zeros(self.n_dim)]
 
@@ -253,7 +254,18 @@ class ObstaclexD(OptiChild):
                        self.signals['acceleration'][:, -1]].T
         if time0 != 0.0:
             state0 -= self.state_incr_interp(time0)
-        state = odeint(self._ode, state0, time_axis).T
+        # integrate from change to change, such that the integrator can not step over one
+        eps = 1e-9
+        changes = self.change_times[(self.change_times > time_axis[0]+eps) & (self.change_times < time_axis[-1]-eps)]
+        breaks = np.r_[time_axis[0], changes, time_axis[-1]]
+        state = np.zeros((state0.size, n_samp))
+        state[:, 0] = state0
+        for t0, t1 in zip(breaks[:-1], breaks[1:]):
+            ind = np.where((time_axis > t0+eps) & (time_axis <= t1+eps))[0]
+            state_incr = self.state_incr_interp(0.5*(t0+t1))
+            sol = odeint(self._ode, state0, np.r_[t0, np.minimum(time_axis[ind], t1), t1], args=(state_incr,)).T
+            state[:, ind] = sol[:, 1:-1]
+            state0 = sol[:, -1]
         state += self.state_incr_interp(time_axis)
         self.signals['position'] = np.c_[self.signals['position'],
                                          state[:self.n_dim, 1:n_samp+1]]
-- 
2.43.0


From f5835a996b6da81c85678dae45fe954b97b77135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:29 +0000
Subject: [PATCH 39/67] fix: bouncing obstacles with an initial velocity never
 bounced, others could leave the room

---
 omgtools/environment/environment.py | 75 +++++------------------------
 1 file changed, 11 insertions(+), 64 deletions(-)

diff --git a/omgtools/environment/environment.py b/omgtools/environment/environment.py
index 93d428f..711e162 100644
--- a/omgtools/environment/environment.py
+++ b/omgtools/environment/environment.py
@@ -190,9 +190,7 @@ class Environment(OptiChild, PlotLayer):
     def simulate(self, simulation_time, sample_time):
         for obstacle in self.obstacles:
             # check if obstacle moves
-            if (('trajectories' in obstacle.simulation) and
-                ('velocity' in obstacle.simulation['trajectories']) and
-                obstacle.options['bounce']):
+            if obstacle.options['bounce'] and np.any(obstacle.signals['velocity'][:,-1] != 0.):
                 # select current velocity
                 vel = obstacle.signals['velocity'][:,-1]
                 # check if it overlaps with any other obstacle
@@ -265,67 +263,16 @@ class Environment(OptiChild, PlotLayer):
                 # check if the obstacle doesn't hit the borders
                 # Todo: supposed that self.room[0] is the total room, containing outer border
                 if obstacle.is_outside_of(self.room[0]):
-                    # bounce straight off border
-                    if any(v == 0 for v in vel):
-                        vel_new = -vel
-                    # bounce diagonally off border
-                    else:
-                        old_pos = np.copy(obstacle.signals['position'][:,-1])
-                        if (vel[0] > 0 and vel[1] > 0):
-                            # direction = up_right
-                            # new direction may be down_right or up_left
-                            # test new direction down_right by shifting obstacle
-                            obstacle.signals['position'][:,-1] += [0.15,-0.15]
-                            if not obstacle.is_outside_of(self.room[0]):
-                                # no overlap so move down_right
-                                # new_direction = down_right
-                                vel_new = [vel[0], -vel[1]]
-                            else:
-                                # there was overlap so move up_left
-                                # new_direction = up_left
-                                vel_new = [-vel[0],vel[1]]
-                        elif vel[0] < 0 and vel[1] > 0:
-                            # direction = up_left
-                            # new direction may be down_left or up_right
-                            # test new direction down_left by shifting obstacle
-                            obstacle.signals['position'][:,-1] += [-0.15,-0.15]
-                            if not obstacle.is_outside_of(self.room[0]):
-                                # no overlap so move down_left
-                                # new_direction = down_left
-                                vel_new = [vel[0], -vel[1]]
-                            else:
-                                # there was overlap so move up_right
-                                # new_direction = up_right
-                                vel_new = [-vel[0],vel[1]]
-                        elif vel[0] > 0 and vel[1] < 0:
-                            # direction = down_right
-                            # new direction may be down_left or up_right
-                            # test new direction down_left by shifting obstacle
-                            obstacle.signals['position'][:,-1] += [-0.15,-0.15]
-                            if not obstacle.is_outside_of(self.room[0]):
-                                # no overlap so move down_left
-                                # new_direction = down_left
-                                vel_new = [-vel[0], vel[1]]
-                            else:
-                                # there was overlap so move up_right
-                                # new_direction = up_right
-                                vel_new = [vel[0],-vel[1]]
-                        elif vel[0] < 0 and vel[1] < 0:
-                            # direction = down_left
-                            # new direction may be down_right or up_left
-                            # test new direction down_right by shifting obstacle
-                            obstacle.signals['position'][:,-1] += [0.15,-0.15]
-                            if not obstacle.is_outside_of(self.room[0]):
-                                # no overlap so move down_right
-                                # new_direction = down_right
-                                vel_new = [-vel[0], vel[1]]
-                            else:
-                                # there was overlap so move up_left
-                                # new_direction = up_left
-                                vel_new = [vel[0],-vel[1]]
-                        # reset position
-                        obstacle.signals['position'][:,-1] = old_pos
-                    print('setting new velocity')
+                    # bounce off the borders it hits: reverse the components of
+                    # the velocity that point out of the room
+                    obst_limits = obstacle.shape.get_canvas_limits()
+                    room_limits = self.room[0]['shape'].get_canvas_limits()
+                    vel_new = np.copy(obstacle.signals['velocity'][:,-1])
+                    for k in range(self.n_dim):
+                        pos = obstacle.signals['position'][k,-1] - self.room[0]['position'][k]
+                        if ((vel_new[k] > 0 and pos + obst_limits[k][1] >= room_limits[k][1]) or
+                                (vel_new[k] < 0 and pos + obst_limits[k][0] <= room_limits[k][0])):
+                            vel_new[k] = -vel_new[k]
                     obstacle.signals['velocity'][:,-1] = vel_new
             obstacle.simulate(simulation_time, sample_time)
         self.update_plots()
-- 
2.43.0


From d87162a6b9667a14089f098aab3182ab7a7ee0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 40/67] fix: intersection of a circle with a polyhedron missed
 vertices and descending sides

---
 omgtools/basics/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/basics/geometry.py b/omgtools/basics/geometry.py
index 8ae0717..f7943fa 100644
--- a/omgtools/basics/geometry.py
+++ b/omgtools/basics/geometry.py
@@ -144,7 +144,7 @@ def circle_polyhedron_intersection(circle, polyhedron_shape, polyhedron_position
     vertices[1] +=  polyhedron_position[1]
 
     center = circle.signals['position'][:,-1]
-    for i in range(len(vertices)):
+    for i in range(len(vertices[0])-1):
         # first quickly check if any vertex is inside the circle
         dist = distance_between_points(center, [vertices[0][i], vertices[1][i]])
         if dist <= circle.shape.radius:
@@ -161,7 +161,7 @@ def circle_polyhedron_intersection(circle, polyhedron_shape, polyhedron_position
         # see if intersection point is within the two end points of line
         # and check distance between intersection point and circle center
         line1 = [[x1,y1],[x2,y2]]  # side of polyhedron
-        if (((x1-eps<=x4<=x2+eps and y1-eps<=y4<=y2+eps) or (x1+eps>=x4>=x2-eps and y1+eps>=y4>=y2-eps)) and
+        if ((min(x1,x2)-eps<=x4<=max(x1,x2)+eps and min(y1,y2)-eps<=y4<=max(y1,y2)+eps) and
            (distance_between_points(center, [x4,y4]) <= circle.shape.radius)):
             return True
     return False
-- 
2.43.0


From 7e0f2bbe1e6184dff276cb4fe3eb6a414f3226a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 41/67] fix: check of a moving point against a rectangle
 stepped over it, distance to a rectangle moved it

---
 omgtools/basics/geometry.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/omgtools/basics/geometry.py b/omgtools/basics/geometry.py
index f7943fa..4fd11ad 100644
--- a/omgtools/basics/geometry.py
+++ b/omgtools/basics/geometry.py
@@ -32,7 +32,7 @@ def distance_between_points(point1, point2):
 def distance_to_rectangle(point, rectangle):
     # returns the x- and y-direction distance from point to a rectangle
     # based on: https://en.wikipedia.org/wiki/Distance_from_a_point_to_a_line
-    vertices = rectangle.vertices
+    vertices = rectangle.vertices.copy()
     vertices[0] +=  rectangle.signals['position'][:,-1][0]
     vertices[1] +=  rectangle.signals['position'][:,-1][1]
 
@@ -191,18 +191,16 @@ def point_in_rectangle(point, rectangle_limits, horizon_time=None, velocity=None
                     return False
         # check moving point
         elif isinstance(horizon_time, (float, int)):
-            # check at each time_interval seconds
-            time_interval = 0.5
-            # amount of times to check
-            N = int(round(horizon_time/time_interval)+1)
-            # sample time of check
-            Ts = float(horizon_time)/N
-            x, y = point
-            vx, vy = velocity
-            for l in range(N+1):
-                if xmin <= (x+l*Ts*vx) <= xmax and ymin <= (y+l*Ts*vy) <= ymax:
-                    return True
-            return False
+            # determine the part of the horizon during which the point is between the limits
+            t_in, t_out = 0., horizon_time
+            for pos, vel, lower, upper in zip(point, velocity, (xmin, ymin), (xmax, ymax)):
+                if vel == 0:
+                    if not lower <= pos <= upper:
+                        return False
+                else:
+                    t_in = max(t_in, min((lower-pos)/vel, (upper-pos)/vel))
+                    t_out = min(t_out, max((lower-pos)/vel, (upper-pos)/vel))
+            return bool(t_in <= t_out)
         else:
             raise RuntimeError('Argument horizon_time was of the wrong type, not None, float or int')
 
-- 
2.43.0


From 88e6f3be3e4098a50628c55cf3897bf9e5f3a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 42/67] fix: full rings could not be made, limits of a ring
 left out its inner side

---
 omgtools/basics/shape.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/omgtools/basics/shape.py b/omgtools/basics/shape.py
index a422a7b..a0ae509 100644
--- a/omgtools/basics/shape.py
+++ b/omgtools/basics/shape.py
@@ -88,7 +88,9 @@ class Ring(Shape2D):
     def get_surfaces(self):
         if (self.start == self.end).all():
             # full ring, placed in the origin
-            s = linspace(0, 2*np.pi, 1000)
+            self.start_angle = 0.
+            self.end_angle = 2*np.pi
+            s = np.linspace(0, 2*np.pi, 1000)
         else:
             # part of a ring, placed in the origin
             self.start_angle = np.arctan2(self.start[1], self.start[0])
@@ -114,11 +116,8 @@ class Ring(Shape2D):
 
     def get_canvas_limits(self):
         # take into account the ring-shape in computation, by computing points on
-        # outer side of the ring
-        s = np.linspace(self.start_angle, self.end_angle, 1000)
-        points_out = np.vstack((
-            (self.radius_out*np.cos(s), self.radius_out*np.sin(s)), 0*s))
-        points = np.c_[self.start, self.end, points_out]
+        # the inner and outer side of the ring
+        points = self.get_surfaces()[0]
         max_xy = np.amax(points, axis=1)
         min_xy = np.amin(points, axis=1)
         return [np.array([min_xy[0], max_xy[0]]),
-- 
2.43.0


From a95aad4126e330f815713f3a20cbee74b819149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 43/67] fix: limits of beams and plates left out their
 thickness

---
 omgtools/basics/shape.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/omgtools/basics/shape.py b/omgtools/basics/shape.py
index a0ae509..0139ef6 100644
--- a/omgtools/basics/shape.py
+++ b/omgtools/basics/shape.py
@@ -185,6 +185,11 @@ class Beam(Polyhedron):
         Polyhedron.__init__(self, np.c_[[0.5*width, 0.], [-0.5*width, 0.]],
                             orientation=orientation, radius=0.5*height)
 
+    def get_canvas_limits(self):
+        # the half circles at both ends belong to the beam
+        return [lims + np.array([-self.radius, self.radius])
+                for lims in Polyhedron.get_canvas_limits(self)]
+
     def get_surfaces(self, vertices):
         s = np.linspace(0, 1-1./24, 24)
         a = [vertices[0, 0]+0.5*self.height*np.cos(s*np.pi - 0.5*np.pi),
@@ -473,3 +478,8 @@ class Plate(Polyhedron3D):
             shape2d.vertices, np.zeros((1, shape2d.vertices.shape[1]))]
         surfaces = [np.r_[surf, np.zeros((1, surf.shape[1]))] for surf in shape2d.surfaces]
         Polyhedron3D.__init__(self, vertices, surfaces, orientation, 0.5*height)
+
+    def get_canvas_limits(self):
+        # the plate extends over its radius around the 2D shape
+        return [lims + np.array([-self.radius, self.radius])
+                for lims in Polyhedron3D.get_canvas_limits(self)]
-- 
2.43.0


From 4786c19e6a3230132e3833e46161c4e5621441b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:59 +0000
Subject: [PATCH 44/67] fix: fleets of one or two vehicles had themselves or
 the same vehicle twice as neighbor, configurations of two states other than 0
 and 1 were not accepted

---
 omgtools/vehicles/fleet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omgtools/vehicles/fleet.py b/omgtools/vehicles/fleet.py
index c4ebacf..2055bab 100644
--- a/omgtools/vehicles/fleet.py
+++ b/omgtools/vehicles/fleet.py
@@ -57,6 +57,8 @@ class Fleet(PlotLayer):
             else:
                 raise ValueError('Interconnection type ' + self.interconnection +
                                  ' not understood.')
+            # in small fleets both neighbors may be the same vehicle
+            nghb_ind = [k for i, k in enumerate(nghb_ind) if k != l and k not in nghb_ind[:i]]
             self.nghb_list[vehicle] = [self.vehicles[ind] for ind in nghb_ind]
 
     def set_configuration(self, configuration, orientation=0.):
@@ -66,7 +68,7 @@ class Fleet(PlotLayer):
                              'for each vehicle.')
         cth, sth = np.cos(-orientation), np.sin(-orientation)
         for l, config in enumerate(configuration):
-            if len(config) == 2:
+            if len(config) == 2 and (not isinstance(config, dict) or sorted(config) == [0, 1]):
                 config = [config[0]*cth-config[1]*sth, config[0]*sth+config[1]*cth]
             if isinstance(config, dict):
                 self.configuration[self.vehicles[l]] = config
-- 
2.43.0


From 889396bbc98a2e45898a8b0749d50e6fab068f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:59 +0000
Subject: [PATCH 45/67] fix: central formation of two vehicles was not imposed,
 relations of a soft formation shared their deviation

---
 omgtools/problems/formation_central.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/formation_central.py b/omgtools/problems/formation_central.py
index 459ac9d..7cd6296 100644
--- a/omgtools/problems/formation_central.py
+++ b/omgtools/problems/formation_central.py
@@ -53,7 +53,7 @@ class FormationPoint2pointCentral(FixedTPoint2point):
             for nghb in self.fleet.get_neighbors(veh):
                 if veh not in couples[nghb] and nghb not in couples[veh]:
                     couples[veh].append(nghb)
-        if self.fleet.interconnection == 'circular':
+        if self.fleet.interconnection == 'circular' and self.fleet.N > 2:
             couples.pop(self.vehicles[-1], None)
             couples.pop(self.vehicles[-2], None)
 
@@ -69,7 +69,7 @@ class FormationPoint2pointCentral(FixedTPoint2point):
                 for ind_v, ind_n in zip(ind_veh, ind_nghb):
                     if self.options['soft_formation']:
                         weight = self.options['soft_formation_weight']
-                        eps = self.define_spline_variable('eps_form_'+str(ind_v)+str(ind_n), basis=veh.basis)[0]
+                        eps = self.define_spline_variable('eps_form_'+str(veh)+'_'+str(nghb)+'_'+str(ind_v)+str(ind_n), basis=veh.basis)[0]
                         obj = weight*definite_integral(eps, t/T, 1.)
                         self.define_objective(obj)
                         self.define_constraint(pos_c_veh[ind_v] - pos_c_nghb[ind_n] - eps, -inf, 0.)
-- 
2.43.0


From 1279079daf5d3ef7bdb890c32cb37f466bc17c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:59 +0000
Subject: [PATCH 46/67] fix: formations configured in other states than the
 first ones were not accepted

---
 omgtools/problems/formation.py         |  6 +++---
 omgtools/problems/formation_central.py | 10 +++++-----
 omgtools/problems/formation_dualdec.py |  6 +++---
 omgtools/problems/rendezvous.py        |  4 ++--
 omgtools/vehicles/dubins.py            |  2 +-
 omgtools/vehicles/vehicle.py           |  5 ++++-
 6 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/omgtools/problems/formation.py b/omgtools/problems/formation.py
index 46b8418..9a490d5 100644
--- a/omgtools/problems/formation.py
+++ b/omgtools/problems/formation.py
@@ -42,7 +42,7 @@ class FormationPoint2point(ADMMProblem):
         for veh in self.vehicles:
             splines[veh] = veh.define_spline_symbol('splines_seg0', veh.n_spl)
             ind_veh = sorted(config[veh].keys())
-            centra[veh] = veh.get_fleet_center(splines[veh], rel_pos_c[veh])
+            centra[veh] = veh.get_fleet_center(splines[veh], rel_pos_c[veh], indices=ind_veh)
         # formation constraints
         couples = {veh: [] for veh in self.vehicles}
         for veh in self.vehicles:
@@ -53,8 +53,8 @@ class FormationPoint2point(ADMMProblem):
                     couples[veh].append(nghb)
                     ind_nghb = sorted(config[nghb].keys())
                     pos_c_nghb = centra[nghb]
-                    for ind_v, ind_n in zip(ind_veh, ind_nghb):
-                        self.define_constraint(pos_c_veh[ind_v] - pos_c_nghb[ind_n], 0., 0.)
+                    for k in range(min(len(ind_veh), len(ind_nghb))):
+                        self.define_constraint(pos_c_veh[k] - pos_c_nghb[k], 0., 0.)
         # terminal constraints (stability issue)
         for veh in self.vehicles:
             for spline in centra[veh]:
diff --git a/omgtools/problems/formation_central.py b/omgtools/problems/formation_central.py
index 7cd6296..ab342ea 100644
--- a/omgtools/problems/formation_central.py
+++ b/omgtools/problems/formation_central.py
@@ -46,7 +46,7 @@ class FormationPoint2pointCentral(FixedTPoint2point):
         for veh in self.vehicles:
             splines[veh] = self.father.get_variables(veh, 'splines_seg0', symbolic=True)
             ind_veh = sorted(config[veh].keys())
-            centra[veh] = veh.get_fleet_center(splines[veh], rel_pos_c[veh], substitute=False)
+            centra[veh] = veh.get_fleet_center(splines[veh], rel_pos_c[veh], substitute=False, indices=ind_veh)
         # formation constraints
         couples = {veh: [] for veh in self.vehicles}
         for veh in self.vehicles:
@@ -66,19 +66,19 @@ class FormationPoint2pointCentral(FixedTPoint2point):
             for nghb in nghbs:
                 ind_nghb = sorted(config[nghb].keys())
                 pos_c_nghb = centra[nghb]
-                for ind_v, ind_n in zip(ind_veh, ind_nghb):
+                for k, (ind_v, ind_n) in enumerate(zip(ind_veh, ind_nghb)):
                     if self.options['soft_formation']:
                         weight = self.options['soft_formation_weight']
                         eps = self.define_spline_variable('eps_form_'+str(veh)+'_'+str(nghb)+'_'+str(ind_v)+str(ind_n), basis=veh.basis)[0]
                         obj = weight*definite_integral(eps, t/T, 1.)
                         self.define_objective(obj)
-                        self.define_constraint(pos_c_veh[ind_v] - pos_c_nghb[ind_n] - eps, -inf, 0.)
-                        self.define_constraint(-pos_c_veh[ind_v] + pos_c_nghb[ind_n] - eps, -inf, 0.)
+                        self.define_constraint(pos_c_veh[k] - pos_c_nghb[k] - eps, -inf, 0.)
+                        self.define_constraint(-pos_c_veh[k] + pos_c_nghb[k] - eps, -inf, 0.)
                         if self.options['max_formation_deviation'] != inf:
                             max_dev = abs(self.options['max_formation_deviation'])
                             self.define_constraint(eps, -max_dev, max_dev)
                     else:
-                        self.define_constraint(pos_c_veh[ind_v] - pos_c_nghb[ind_n], 0., 0.)
+                        self.define_constraint(pos_c_veh[k] - pos_c_nghb[k], 0., 0.)
 
     def update(self, current_time, update_time, sample_time):
         FixedTPoint2point.update(self, current_time, update_time, sample_time)
diff --git a/omgtools/problems/formation_dualdec.py b/omgtools/problems/formation_dualdec.py
index 07eb887..c210dbd 100644
--- a/omgtools/problems/formation_dualdec.py
+++ b/omgtools/problems/formation_dualdec.py
@@ -41,7 +41,7 @@ class FormationPoint2pointDualDecomposition(DDProblem):
         for veh in self.vehicles:
             splines[veh] = veh.define_spline_symbol('splines_seg0', veh.n_spl)
             ind_veh = sorted(config[veh].keys())
-            centra[veh] = veh.get_fleet_center(splines[veh], rel_pos_c[veh])
+            centra[veh] = veh.get_fleet_center(splines[veh], rel_pos_c[veh], indices=ind_veh)
         # formation constraints
         couples = {veh: [] for veh in self.vehicles}
         for veh in self.vehicles:
@@ -52,8 +52,8 @@ class FormationPoint2pointDualDecomposition(DDProblem):
                     couples[veh].append(nghb)
                     ind_nghb = sorted(config[nghb].keys())
                     pos_c_nghb = centra[nghb]
-                    for ind_v, ind_n in zip(ind_veh, ind_nghb):
-                        self.define_constraint(pos_c_veh[ind_v] - pos_c_nghb[ind_n], 0., 0.)
+                    for k in range(min(len(ind_veh), len(ind_nghb))):
+                        self.define_constraint(pos_c_veh[k] - pos_c_nghb[k], 0., 0.)
         # terminal constraints (stability issue)
         for veh in self.vehicles:
             for spline in centra[veh]:
diff --git a/omgtools/problems/rendezvous.py b/omgtools/problems/rendezvous.py
index 366f921..02ef517 100644
--- a/omgtools/problems/rendezvous.py
+++ b/omgtools/problems/rendezvous.py
@@ -55,8 +55,8 @@ class RendezVous(ADMMProblem):
                     couples[veh].append(nghb)
                     ind_nghb = sorted(config[nghb].keys())
                     pos_c_nghb = centra[nghb]
-                    for ind_v, ind_n in zip(ind_veh, ind_nghb):
-                        self.define_constraint(pos_c_veh[ind_v] - pos_c_nghb[ind_n], 0., 0.)
+                    for k in range(min(len(ind_veh), len(ind_nghb))):
+                        self.define_constraint(pos_c_veh[k] - pos_c_nghb[k], 0., 0.)
         ADMMProblem.construct(self)
 
     def set_parameters(self, current_time):
diff --git a/omgtools/vehicles/dubins.py b/omgtools/vehicles/dubins.py
index d536c26..2471ce9 100644
--- a/omgtools/vehicles/dubins.py
+++ b/omgtools/vehicles/dubins.py
@@ -128,7 +128,7 @@ class Dubins(Vehicle):
         self.define_constraint(-2*dtg_ha + (1+tg_ha**2)*horizon_time*self.wmin, -inf, 0.)
 
 
-    def get_fleet_center(self, splines, rel_pos, substitute=True):
+    def get_fleet_center(self, splines, rel_pos, substitute=True, indices=None):
         horizon_time = self.define_symbol('T')
         t = self.define_symbol('t')
         pos0 = self.define_parameter('pos0', 2)
diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 5cdba47..b98ff8d 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -254,8 +254,11 @@ class Vehicle(OptiChild, PlotLayer):
                             self.define_constraint(
                                 sum([hpp['a'][k]*(chck[k]+position[k]) for k in range(3)])-hpp['b']+rad[l], -inf, 0.)
 
-    def get_fleet_center(self, splines, rel_pos, substitute=True):
+    def get_fleet_center(self, splines, rel_pos, substitute=True, indices=None):
         rel_pos = rel_pos if isinstance(rel_pos,list) else vertsplit(rel_pos)
+        if indices is not None:
+            # splines for which the configuration is imposed
+            splines = [splines[ind] for ind in indices]
         if substitute:
             center = self.define_substitute('fleet_center', [s+rp for s, rp in zip(splines, rel_pos)])
             return center
-- 
2.43.0


From 0862181aad4880967f833328e9905369f62fc3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:44 +0000
Subject: [PATCH 47/67] fix: residual of dual decomposition squared the squared
 residuals of the vehicles

---
 omgtools/problems/dualdecomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/dualdecomposition.py b/omgtools/problems/dualdecomposition.py
index 0dd2ac7..40cd546 100644
--- a/omgtools/problems/dualdecomposition.py
+++ b/omgtools/problems/dualdecomposition.py
@@ -291,7 +291,7 @@ class DDProblem(DualProblem):
             t2, pr = updater.get_residuals(current_time)
             t_upd_l = max(t_upd_l, t1)
             t_res = max(t_res, t2)
-            p_res += pr**2
+            p_res += pr # squared value
         p_res = np.sqrt(p_res)
         for updater in self.updaters:
             updater.communicate()
-- 
2.43.0


From 5eb92463952869b7d10eb1c9491c314b2708791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:44 +0000
Subject: [PATCH 48/67] fix: consensus update and residuals of ADMM considered
 the past part of the splines

---
 omgtools/problems/admm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/omgtools/problems/admm.py b/omgtools/problems/admm.py
index 20b2c3f..3e87c48 100644
--- a/omgtools/problems/admm.py
+++ b/omgtools/problems/admm.py
@@ -141,8 +141,8 @@ class ADMM(DualUpdater):
         l_ij = self.q_ij_struct(l_ij)
         # transform spline variables: only consider future piece of spline
         tf = lambda cfs, basis: shift_knot1_fwd(cfs, basis, t0)
-        self._transform_spline([x_i, l_i], tf, self.q_i)
-        self._transform_spline([x_j, l_ij], tf, self.q_ij)
+        x_i, l_i = self._transform_spline([x_i, l_i], tf, self.q_i)
+        x_j, l_ij = self._transform_spline([x_j, l_ij], tf, self.q_ij)
         # fill in parameters
         A = A(par.cat)
         b = b(par.cat)
@@ -159,8 +159,8 @@ class ADMM(DualUpdater):
         z_ij_new = self.q_ij_struct(z[l_qi:l_qi+l_qij])
         # transform back
         tf = lambda cfs, basis: shift_knot1_bwd(cfs, basis, t0)
-        self._transform_spline(z_i_new, tf, self.q_i)
-        self._transform_spline(z_ij_new, tf, self.q_ij)
+        z_i_new = self._transform_spline(z_i_new, tf, self.q_i)
+        z_ij_new = self._transform_spline(z_ij_new, tf, self.q_ij)
         out = [z_i_new.cat, z_ij_new.cat]
         # create problem
         prob, buildtime = create_function('upd_z_'+str(self._index), inp, out, self.options)
@@ -292,8 +292,8 @@ class ADMM(DualUpdater):
         x_j = self.q_ij_struct(x_j)
         # transform spline variables: only consider future piece of spline
         tf = lambda cfs, basis: shift_knot1_fwd(cfs, basis, t0)
-        self._transform_spline([x_i, z_i, z_i_p], tf, self.q_i)
-        self._transform_spline([x_j, z_ij, z_ij_p], tf, self.q_ij)
+        x_i, z_i, z_i_p = self._transform_spline([x_i, z_i, z_i_p], tf, self.q_i)
+        x_j, z_ij, z_ij_p = self._transform_spline([x_j, z_ij, z_ij_p], tf, self.q_ij)
         # compute residuals
         pr = mtimes((x_i.cat-z_i.cat).T, (x_i.cat-z_i.cat))
         pr += mtimes((x_j.cat-z_ij.cat).T, (x_j.cat-z_ij.cat))
-- 
2.43.0


From 3035dad2e2dc63bf3d37f712d319408052d080bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:44 +0000
Subject: [PATCH 49/67] fix: shared splines and multipliers stayed behind when
 an update passed a knot without landing on it or took more than one iteration

---
 omgtools/problems/admm.py              | 13 ++++++-------
 omgtools/problems/dualdecomposition.py | 10 +++++-----
 omgtools/problems/dualmethod.py        |  6 ++++++
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/omgtools/problems/admm.py b/omgtools/problems/admm.py
index 3e87c48..af1685d 100644
--- a/omgtools/problems/admm.py
+++ b/omgtools/problems/admm.py
@@ -409,7 +409,6 @@ class ADMM(DualUpdater):
         t0 = time.time()
         self.var_admm['z_i_p'] = self.var_admm['z_i']
         self.var_admm['z_ij_p'] = self.var_admm['z_ij']
-        current_time = np.round(current_time, 6) % self.problem.knot_time
         horizon_time = self.problem.options['horizon_time']
         rho = self.options['rho']
         if self._lineq_updz:
@@ -418,7 +417,7 @@ class ADMM(DualUpdater):
             l_i = self.var_admm['l_i']
             l_ij = self.var_admm['l_ij']
             x_j = self.var_admm['x_j']
-            t = current_time
+            t = self.problem.get_time_in_interval(current_time)
             T = horizon_time
             par = self.set_parameters_upd_z(current_time)
             out = self.problem_upd_z(x_i, l_i, l_ij, x_j, t, T, rho, par)
@@ -456,7 +455,7 @@ class ADMM(DualUpdater):
         l_i = self.var_admm['l_i']
         l_ij = self.var_admm['l_ij']
         x_j = self.var_admm['x_j']
-        t = np.round(current_time, 6) % self.problem.knot_time
+        t = self.problem.get_time_in_interval(current_time)
         T = self.problem.options['horizon_time']
         rho = self.options['rho']
         out = self.problem_upd_l(x_i, z_i, z_ij, l_i, l_ij, x_j, rho)
@@ -475,11 +474,11 @@ class ADMM(DualUpdater):
             self.var_admm['x_j'][str(nghb)] = x_j
 
     def init_step(self, current_time, update_time):
+        n_knots = self.get_passed_knots(current_time)
         self.problem.init_step(current_time, update_time)
         # transform spline variables
-        if ((current_time > 0. and
-             np.round(current_time, 6) % self.problem.knot_time == 0)):
-            tf = shift_over_knot
+        tf = shift_over_knot
+        for _ in range(n_knots):
             for key in ['x_i', 'z_i', 'z_i_p', 'l_i', 'l_i_p']:
                 self.var_admm[key] = self._transform_spline(
                     self.var_admm[key], tf, self.q_i)
@@ -499,7 +498,7 @@ class ADMM(DualUpdater):
         z_ij = self.var_admm['z_ij']
         z_ij_p = self.var_admm['z_ij_p']
         x_j = self.var_admm['x_j']
-        t = np.round(current_time, 6) % self.problem.knot_time
+        t = self.problem.get_time_in_interval(current_time)
         T = self.problem.options['horizon_time']
         rho = self.options['rho']
         out = self.problem_upd_res(x_i, z_i, z_i_p, z_ij, z_ij_p, x_j, t, T, rho)
diff --git a/omgtools/problems/dualdecomposition.py b/omgtools/problems/dualdecomposition.py
index 40cd546..3ef2e8c 100644
--- a/omgtools/problems/dualdecomposition.py
+++ b/omgtools/problems/dualdecomposition.py
@@ -214,7 +214,7 @@ class DDUpdater(DualUpdater):
         x_j = self.var_dd['x_j']
         z_ij = self.var_dd['z_ij']
         l_ij = self.var_dd['l_ij']
-        t = np.round(current_time, 6) % self.problem.knot_time
+        t = self.problem.get_time_in_interval(current_time)
         T = self.problem.options['horizon_time']
         rho = self.options['rho']
         out = self.problem_upd_l(x_j, z_ij, l_ij, t, T, rho)
@@ -230,11 +230,11 @@ class DDUpdater(DualUpdater):
             self.var_dd['x_j'][str(nghb)] = x_j
 
     def init_step(self, current_time, update_time):
+        n_knots = self.get_passed_knots(current_time)
         self.problem.init_step(current_time, update_time)
         # transform spline variables
-        if ((current_time > 0. and
-             np.round(current_time, 6) % self.problem.knot_time == 0)):
-            tf = shift_over_knot
+        tf = shift_over_knot
+        for _ in range(n_knots):
             for key in ['x_i']:
                 self.var_dd[key] = self._transform_spline(
                     self.var_dd[key], tf, self.q_i)
@@ -247,7 +247,7 @@ class DDUpdater(DualUpdater):
 
     def get_residuals(self, current_time):
         t0 = time.time()
-        current_time = np.round(current_time, 6) % self.problem.knot_time
+        current_time = self.problem.get_time_in_interval(current_time)
         horizon_time = self.problem.options['horizon_time']
         tf = lambda cfs, basis: shift_knot1_fwd(
             cfs, basis, current_time/horizon_time)
diff --git a/omgtools/problems/dualmethod.py b/omgtools/problems/dualmethod.py
index bba4538..e9afa67 100644
--- a/omgtools/problems/dualmethod.py
+++ b/omgtools/problems/dualmethod.py
@@ -180,6 +180,12 @@ class DualUpdater(Problem):
     # Methods related to solving the problem
     # ========================================================================
 
+    def get_passed_knots(self, current_time):
+        # number of knots that are passed since the previous step
+        previous_time = getattr(self.problem, 'current_time_prev', 0)
+        return (self.problem.get_knot_interval(current_time) -
+                self.problem.get_knot_interval(previous_time))
+
     def communicate(self):
         raise NotImplementedError('Please implement this method!')
 
-- 
2.43.0


From 66dafc47819839ed422e94c03ac485b15e23ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:00 +0000
Subject: [PATCH 50/67] fix: global planner found no path when the goal was the
 last node left

---
 omgtools/problems/globalplanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index e376a6b..6ea8ed9 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -198,7 +198,7 @@ class AStarPlanner(GlobalPlanner):
             self.remove_from_open_list(self.current_node)
             self.closed_list.append(self.current_node)
 
-            if not self.open_list:
+            if not self.open_list and self.current_node.pos != self.goal:
                 # current node is not the goal, and open list is empty
                 # check if there are neigbors left which you can reach and are not yet visited
                 neighbors = self.grid.get_neighbors(self.current_node.pos)
-- 
2.43.0


From 1c878bc2637b04f88cc733572e383c364caca663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:00 +0000
Subject: [PATCH 51/67] fix: global planner cut corners of occupied cells when
 going down left

---
 omgtools/problems/globalplanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index 6ea8ed9..d84bf28 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -346,7 +346,7 @@ class Grid(object):
                     accessible = True
             # diagonal down left
             elif (point1[0] - 1 == point2[0] and point1[1] - 1 == point2[1]):
-                if (self.free([point1[0], point1[1] - self.cell_height]) and self.free([point1[0] - 1,point1[1]])):
+                if (self.free([point1[0], point1[1] - 1]) and self.free([point1[0] - 1,point1[1]])):
                     accessible = True
 
         return accessible
-- 
2.43.0


From 417231c9658217b6ee168e8a91a440bcae719c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:00 +0000
Subject: [PATCH 52/67] fix: global planner ignored the orientation of
 obstacles and could only handle rectangles and circles

---
 omgtools/problems/globalplanner.py | 44 +++++++++++-------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index d84bf28..75cca08 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -18,7 +18,7 @@
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA
 
 from __future__ import print_function
-from ..basics.shape import Rectangle, Square, Circle
+from ..basics.shape import Rectangle, Square, Circle, Beam
 
 import time
 from matplotlib import pyplot as plt
@@ -446,33 +446,21 @@ class Grid(object):
             if ((not 'trajectories' in obstacle.simulation) or (not 'velocity' in obstacle.simulation['trajectories'])
                or (all(vel == [0.]*obstacle.n_dim for vel in obstacle.simulation['trajectories']['velocity']['values']))):
                 pos = obstacle.signals['position'][:,-1]
-                if isinstance(obstacle.shape, (Rectangle, Square)):
-                    vertices = []
-                    vertex_x = obstacle.shape.vertices[0]
-                    vertex_y = obstacle.shape.vertices[1]
-                    for k in range(len(vertex_x)):
-                        if vertex_x[k] == min(vertex_x):
-                            # take into account offset to avoid waypoints which are so close
-                            # to obstacles that they are not reachable
-                            v_x = vertex_x[k] + pos[0] - self.offset[0]
-                        else:
-                            # take into account offset to avoid waypoints which are so close
-                            # to obstacles that they are not reachable
-                            v_x = vertex_x[k] + pos[0] + self.offset[0]
-                        if vertex_y[k] == min(vertex_y):
-                            v_y = vertex_y[k] + pos[1] - self.offset[1]
-                        else:
-                            v_y = vertex_y[k] + pos[1] + self.offset[1]
-                        vertices.append([v_x, v_y])
-                if isinstance(obstacle.shape, Circle):
-                    r = obstacle.shape.radius
-                    # approximate circle by a square and add these vertices
-                    # take into account offset, e.g. to avoid waypoints which
-                    # are closer to obstacles than the vehicle can reach
-                    vertices = [[pos[0] + r + self.offset[0], pos[1] + r + self.offset[1]],
-                                [pos[0] + r + self.offset[0], pos[1] - r - self.offset[1]],
-                                [pos[0] - r - self.offset[0], pos[1] + r + self.offset[1]],
-                                [pos[0] - r - self.offset[0], pos[1] - r - self.offset[1]]]
+                # take into account orientation of the obstacle
+                theta = obstacle.signals['orientation'][0,-1] if 'orientation' in obstacle.signals else 0.
+                rotation = np.array([[np.cos(theta), -np.sin(theta)], [np.sin(theta), np.cos(theta)]])
+                # approximate obstacle by its bounding box
+                # take into account offset, e.g. to avoid waypoints which
+                # are closer to obstacles than the vehicle can reach
+                checkpoints, radii = obstacle.shape.get_checkpoints()
+                checkpoints = rotation.dot(np.array(checkpoints, dtype=float).T[:2,:])
+                # the radius of other shapes is only there for numerical reasons
+                radius = max(radii) if isinstance(obstacle.shape, (Circle, Beam)) else 0.
+                x_min = min(checkpoints[0]) + pos[0] - radius - self.offset[0]
+                x_max = max(checkpoints[0]) + pos[0] + radius + self.offset[0]
+                y_min = min(checkpoints[1]) + pos[1] - radius - self.offset[1]
+                y_max = max(checkpoints[1]) + pos[1] + radius + self.offset[1]
+                vertices = [[x_min, y_min], [x_min, y_max], [x_max, y_min], [x_max, y_max]]
                 vertices = np.array(vertices)
                 vertices = np.round(vertices, 4)  # rounding off vertex positions, for easier comparison below
 
-- 
2.43.0


From 787a7e62c38cb4d6c299f8ac74f415e6dd0a6140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:15 +0000
Subject: [PATCH 53/67] fix: global planner missed cells that are crossed by a
 thin obstacle

---
 omgtools/problems/globalplanner.py | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index 75cca08..45afd37 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -466,37 +466,19 @@ class Grid(object):
 
                 occ_cells = []
                 for cell in cells:
-                    blocked = False  # boolean to indicate if cell is blocked
                     # calculate cell vertices
                     cell_vertices = []
                     cell_vertices.append([cell['pos'][0] - 0.5*self.cell_width, cell['pos'][1] - 0.5*self.cell_height])
                     cell_vertices.append([cell['pos'][0] + 0.5*self.cell_width, cell['pos'][1] - 0.5*self.cell_height])
                     cell_vertices.append([cell['pos'][0] - 0.5*self.cell_width, cell['pos'][1] + 0.5*self.cell_height])
                     cell_vertices.append([cell['pos'][0] + 0.5*self.cell_width, cell['pos'][1] + 0.5*self.cell_height])
-                    cell_vertices = np.array(cell_vertices)
-                    # cell center is inside the convex hull of the vertices of an obstacle
-                    if (min(vertices[:,0]) < cell['pos'][0] < max(vertices[:,0]) and
-                        min(vertices[:,1]) < cell['pos'][1] < max(vertices[:,1])):
+                    cell_vertices = np.round(np.array(cell_vertices), 4)
+                    # check if the bounding box of the obstacle overlaps with the cell
+                    if (min(vertices[:,0]) < max(cell_vertices[:,0]) and
+                        max(vertices[:,0]) > min(cell_vertices[:,0]) and
+                        min(vertices[:,1]) < max(cell_vertices[:,1]) and
+                        max(vertices[:,1]) > min(cell_vertices[:,1])):
                         occ_cells.append(cell)
-                    else:
-                        # check if any of the cell vertices are inside the convex hull of the obstacle vertices
-                        for cell_v in cell_vertices:
-                            if (min(vertices[:,0]) < cell_v[0] < max(vertices[:,0]) and
-                                min(vertices[:,1]) < cell_v[1] < max(vertices[:,1])):
-                                    # avoid adding the same cell multiple times
-                                    if cell not in occ_cells:
-                                        occ_cells.append(cell)
-                                    blocked = True  # cell is blocked, go to next cell
-                                    break
-                        # check if any of the obstacle vertices are inside the convex hull of the cell vertices
-                        if not blocked:  # cell was not detected as blocked yet
-                            for v in vertices:
-                                if (min(cell_vertices[:,0]) < v[0] < max(cell_vertices[:,0]) and
-                                    min(cell_vertices[:,1]) < v[1] < max(cell_vertices[:,1])):
-                                        # avoid adding the same cell multiple times
-                                        if cell not in occ_cells:
-                                            occ_cells.append(cell)
-                                        break  # one obstacle vertex is inside the cell, go to next cell
                 # if cell is found to be occupied, remove it, i.e. don't check again for next obstacle
                 for cell in occ_cells:
                     cells.remove(cell)
-- 
2.43.0


From 5722144b7bd3fd81b5bf176ba8ffc0a4d8502f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:00 +0000
Subject: [PATCH 54/67] fix: reader of GCode crashed on blank lines and unknown
 words and executed words of comments

---
 omgtools/gui/gcode_block.py  | 25 +++++++++----------------
 omgtools/gui/gcode_reader.py | 12 ++++++------
 2 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index 967437c..deb14eb 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+import re
 import warnings
 
 class GCodeBlock(object):
@@ -291,28 +292,20 @@ def distance_between(point1, point2):
         dist += (point2[n]-point1[n])**2
     return np.sqrt(dist)
 
+def remove_comments(line):
+    # remove the comments, which are placed between brackets, from a line of GCode
+    return re.sub(r'\([^)]*(\)|$)', ' ', line).strip()
+
 def generate_gcodeblock(command, number, prev_block):
     # convert string to a dictionary representation
-    command = command.split()  # split at white spaces
+    command = remove_comments(command).split()  # split at white spaces
     command_dict = {}
     for c in command:
         if c in ['G00','G01','G02','G03']:
             command_dict['type'] = c
-        elif '(' in c:
-            # neglect this command, since it is a comment
-            pass
-        elif 'X' in c:
-            command_dict['X'] = float(c[1:])
-        elif 'Y' in c:
-            command_dict['Y'] = float(c[1:])
-        elif 'Z' in c:
-            command_dict['Z'] = float(c[1:])
-        elif 'I' in c:
-            command_dict['I'] = float(c[1:])
-        elif 'J' in c:
-            command_dict['J'] = float(c[1:])
-        elif 'K' in c:
-            command_dict['K'] = float(c[1:])
+        elif re.match(r'[XYZIJK][-+]?(\d+\.?\d*|\.\d+)$', c):
+            command_dict[c[0]] = float(c[1:])
+        # else: neglect this word
 
     command = command_dict
     if 'type' in command:
diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index 3583a43..280f30b 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -8,7 +8,7 @@ import numpy as np
 from matplotlib import pyplot as plt
 from mpl_toolkits.mplot3d import Axes3D
 
-from .gcode_block import generate_gcodeblock
+from .gcode_block import generate_gcodeblock, remove_comments
 
 try:
   input = raw_input
@@ -128,10 +128,10 @@ class GCodeReader(object):
         else:
             file_str = file.readlines()
         for line in file_str:
-            line = line.strip().decode("utf-8")
+            line = remove_comments(line.decode("utf-8"))
             # extract commands
-            if line[0] == '(':
-                # this is a commented line
+            if not line:
+                # this is an empty or commented line
                 pass
             elif line[0] == 'G' or (line[0] == 'N' and (any([code in line for code in self.GCodes]))):
                 self.commands.append(line)
@@ -151,9 +151,9 @@ class GCodeReader(object):
             file_data = open(f, 'rb')
             file_str = file_data.readlines()
             for line in file_str:
-                line = line.strip().decode("utf-8")
+                line = remove_comments(line.decode("utf-8"))
                 # extract commands
-                if line[0] == 'G' or (line[0] == 'N' and 'G' in line):
+                if line.startswith('G') or (line.startswith('N') and 'G' in line):
                     self.commands.append(line)
 
     def create_blocks(self):
-- 
2.43.0


From 4c14fd5c600b44f5a795c57a3345b41e8d43c342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:00 +0000
Subject: [PATCH 55/67] fix: arcs of GCode had a wrong center when an offset
 was omitted, a wrong radius outside the plane z=0 or no radius at all

---
 omgtools/gui/gcode_block.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index deb14eb..9497d71 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -67,7 +67,7 @@ class G02(GCodeBlock):
 
         self.plane = 'XY'  # in which plane is the arc formed
 
-        self.center = [0, 0, 0]  # initialize
+        self.center = [self.X0, self.Y0, self.Z0]  # initialize, omitted offsets are zero
         if 'I' in command:
             self.I = command['I']
             self.center[0] = self.X0+self.I
@@ -177,7 +177,7 @@ class G03(GCodeBlock):
 
         self.plane = 'XY'  # in which plane is the arc formed
 
-        self.center = [0, 0, 0]  # initialize
+        self.center = [self.X0, self.Y0, self.Z0]  # initialize, omitted offsets are zero
         if 'I' in command:
             self.I = command['I']
             self.center[0] = self.X0+self.I
@@ -187,6 +187,7 @@ class G03(GCodeBlock):
         if 'K' in command:
             self.K = command['K']
             self.center[2] = self.Z0+self.K
+        self.radius = distance_between(self.center, [self.X0, self.Y0,self.Z0])
 
         # Todo: add check if IJ, IK, or JK present, if not throw error
 
-- 
2.43.0


From 606e99676ad080e3612cc5ea3298bd89b91311bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:00 +0000
Subject: [PATCH 56/67] fix: full circle of GCode had no length

---
 omgtools/gui/gcode_block.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index 9497d71..031342b 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -107,7 +107,7 @@ class G02(GCodeBlock):
             angle1 = np.arctan2(self.Z0-self.center[2], self.Y0-self.center[1])
             angle2 = np.arctan2(self.Z1-self.center[2], self.Y1-self.center[1])
 
-            if angle1 < angle2:
+            if angle1 <= angle2:
                 # clockwise so angle2 must be < angle1
                 # probably angle2 is smaller, but arctan2 returned a negative angle
                 angle1 += 2*np.pi
@@ -128,7 +128,7 @@ class G02(GCodeBlock):
             angle1 = angle1
             angle2 = np.arctan2(self.Z1-self.center[2], self.X1-self.center[0])
 
-            if angle1 < angle2:
+            if angle1 <= angle2:
                 # clockwise so angle2 must be < angle1
                 # probably angle2 is smaller, but arctan2 returned a negative angle
                 angle1 += 2*np.pi
@@ -150,7 +150,7 @@ class G02(GCodeBlock):
             angle1 = np.arctan2(self.Y0-self.center[1], self.X0-self.center[0])
             angle2 = np.arctan2(self.Y1-self.center[1], self.X1-self.center[0])
 
-            if angle1 < angle2:
+            if angle1 <= angle2:
                 # clockwise so angle2 must be < angle1
                 # probably angle2 is smaller, but arctan2 returned a negative angle
                 angle1 += 2*np.pi
@@ -219,7 +219,7 @@ class G03(GCodeBlock):
             angle1 = np.arctan2(self.Z0-self.center[2], self.Y0-self.center[1])
             angle2 = np.arctan2(self.Z1-self.center[2], self.Y1-self.center[1])
 
-            if angle1 > angle2:
+            if angle1 >= angle2:
                 # counter-clockwise so angle2 must be > angle1
                 # probably angle2 is bigger, but arctan2 returned a negative angle
                 angle2 += 2*np.pi
@@ -242,7 +242,7 @@ class G03(GCodeBlock):
             angle1 = np.arctan2(self.Z0-self.center[2], self.X0-self.center[0])
             angle2 = np.arctan2(self.Z1-self.center[2], self.X1-self.center[0])
 
-            if angle1 > angle2:
+            if angle1 >= angle2:
                 # counter-clockwise so angle2 must be > angle1
                 # probably angle2 is bigger, but arctan2 returned a negative angle
                 angle2 += 2*np.pi
@@ -266,7 +266,7 @@ class G03(GCodeBlock):
             angle1 = np.arctan2(self.Y0-self.center[1], self.X0-self.center[0])
             angle2 = np.arctan2(self.Y1-self.center[1], self.X1-self.center[0])
 
-            if angle1 > angle2:
+            if angle1 >= angle2:
                 # counter-clockwise so angle2 must be > angle1
                 # probably angle2 is bigger, but arctan2 returned a negative angle
                 angle2 += 2*np.pi
-- 
2.43.0


From fcea65fddda96c076dcc429b80e5f67fa1426a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:00 +0000
Subject: [PATCH 57/67] fix: division of GCode ended with an empty part,
 connections of GCode missed the end point

---
 omgtools/gui/gcode_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index 280f30b..3d0bce7 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -216,7 +216,8 @@ class GCodeReader(object):
                 blocks = []
                 # add z-block separately
                 GCode_blocks.append([block])
-        GCode_blocks.append(blocks)
+        if blocks:
+            GCode_blocks.append(blocks)
         return GCode_blocks
 
     def get_connections(self):
@@ -224,7 +225,7 @@ class GCodeReader(object):
         connections = []
         for block in self.blocks:
             connections.append([block.X0,block.Y0, block.Z0])
-        connections.append([self.blocks[-1].X0, self.blocks[-1].Y0, self.blocks[-1].Z0])  # add last point
+        connections.append([self.blocks[-1].X1, self.blocks[-1].Y1, self.blocks[-1].Z1])  # add last point
         connections.append([self.blocks[0].X0, self.blocks[0].Y0, self.blocks[0].Z0])  # close contour
         self.connections = np.array(connections)
 
-- 
2.43.0


From 0d31a7cf710f11655fbb8f31c7f3b8f0b08f49ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:00 +0000
Subject: [PATCH 58/67] fix: subfiles of a GCode file loaded by name were not
 found, shifting or scaling GCode failed in Python 3

---
 omgtools/gui/gcode_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index 3d0bce7..4282fae 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -4,6 +4,7 @@ try:
 except ImportError:
   import Tkinter as tk
   import tkFileDialog as tkfiledialog
+import os
 import numpy as np
 from matplotlib import pyplot as plt
 from mpl_toolkits.mplot3d import Axes3D
@@ -33,7 +34,6 @@ class GCodeReader(object):
 
         if file is None:
             file = tkfiledialog.askopenfilename(filetypes=[('GCode files', '.nc'), ('all files','.*')])
-            self.filepath = file.rsplit('/',1)[0]  # save file path without the file name
             if file:
                 try:
                     data = open(file, 'rb')
@@ -46,6 +46,7 @@ class GCodeReader(object):
             except Exception as details:
                 print(details)
                 return
+        self.filepath = os.path.dirname(file) or '.'  # save file path without the file name
         self.file = data
 
     def convert(self):
@@ -58,7 +59,7 @@ class GCodeReader(object):
 
         if answer == 'yes':
             # shift and scale the GCode file
-            lines = self.file.read().splitlines()
+            lines = [remove_comments(l) for l in self.file.read().decode("utf-8").splitlines()]
 
             # get user input for offset and scaling factor
             offset = []
-- 
2.43.0


From c18ce0cd4637b541c3036889ae07be6f119b7c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:21 +0000
Subject: [PATCH 59/67] fix: construction of the rooms changed the center of
 the GCode arcs

---
 omgtools/problems/gcodeschedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index ddf4ee9..07317b6 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -549,7 +549,7 @@ class GCodeSchedulerProblem(Problem):
             # make a single ring segment
             shape = Ring(radius_in = radius_in, radius_out = radius_out,
                          start = start, end = end, direction = direction)
-            pose = block.center
+            pose = list(block.center)
             pose.extend([0.,0.,0.])  # [x,y,z,orientation], ring always has orientation 0
             new_room = [{'shape': shape, 'pose': pose, 'position': pose[:2], 'draw':True,
                         'start': block.start, 'end': block.end, 'number':number}]
-- 
2.43.0


From 814689cd82923376dd08a80dcdb6e4cfd584dd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:21 +0000
Subject: [PATCH 60/67] fix: rooms of GCode lines with a z-movement were too
 long in the xy-plane and split at the wrong height

---
 omgtools/problems/gcodeschedulerproblem.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index 07317b6..886a314 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -243,9 +243,12 @@ class GCodeSchedulerProblem(Problem):
             # convert block to room
             if block.type in ['G00', 'G01']:
                 # not using variable tolerance, or segment is too short to split
-                if (not self.variable_tolerance or distance_between_points(block.start, block.end) < self.split_length):
+                # the rooms are placed in the xy-plane
+                length = distance_between_points(block.start[:2], block.end[:2])
+                if (not self.variable_tolerance or length == 0. or
+                    distance_between_points(block.start, block.end) < self.split_length):
                     # add tolerance to width to obtain the complete reachable region
-                    width = distance_between_points(block.start, block.end) + 2*tolerance
+                    width = length + 2*tolerance
                     height = 2*tolerance
                     orientation = np.arctan2(block.end[1]-block.start[1], block.end[0]-block.start[0])
                     shape = Rectangle(width = width,  height = height, orientation = orientation)
@@ -261,7 +264,8 @@ class GCodeSchedulerProblem(Problem):
                     # large tolerances in the first and last parts, tight tolerance in the middle part
 
                     orientation = np.arctan2(block.end[1]-block.start[1], block.end[0]-block.start[0])
-                    width = distance_between_points(block.start, block.end)  # default width
+                    width = length  # default width
+                    height_diff = block.end[2]-block.start[2]
 
                     ## part 1
                     l1 = self.split_small*width
@@ -270,11 +274,11 @@ class GCodeSchedulerProblem(Problem):
                     shape1 = Rectangle(width = width1,  height = height1, orientation = orientation)
                     pose1 = [block.start[0] + 0.5*l1*np.cos(orientation),
                              block.start[1] + 0.5*l1*np.sin(orientation),
-                             block.start[2] + (block.end[2]-block.start[2])*0.5,
+                             block.start[2] + self.split_small*height_diff*0.5,
                              orientation,0.,0.]
                     end1 = [block.start[0] + l1*np.cos(orientation),
                             block.start[1] + l1*np.sin(orientation),
-                            block.start[2] + (block.end[2]-block.start[2])]
+                            block.start[2] + self.split_small*height_diff]
 
                     ## part 2, tolerance = tolerance_small
                     l2 = (1-2*self.split_small)*width
@@ -288,7 +292,7 @@ class GCodeSchedulerProblem(Problem):
                     start2 = end1
                     end2 = [block.start[0] + (l1+l2)*np.cos(orientation),
                             block.start[1] + (l1+l2)*np.sin(orientation),
-                            block.start[2] + (block.end[2]-block.start[2])]
+                            block.end[2] - self.split_small*height_diff]
 
                     ## part 3
                     l3 = l1
@@ -297,7 +301,7 @@ class GCodeSchedulerProblem(Problem):
                     shape3 = Rectangle(width = width3,  height = height3, orientation = orientation)
                     pose3 = [block.end[0] - 0.5*l3*np.cos(orientation),
                              block.end[1] - 0.5*l3*np.sin(orientation),
-                             block.start[2] + (block.end[2]-block.start[2])*0.5,
+                             block.end[2] - self.split_small*height_diff*0.5,
                              orientation,0.,0.]
                     start3 = end2
 
-- 
2.43.0


From 9fa0eb2650236571a6f10fe514052474acbb6a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:47 +0000
Subject: [PATCH 61/67] fix: rooms of (almost) full circles of GCode covered
 only a small part of the circle

---
 omgtools/problems/gcodeschedulerproblem.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index 886a314..44d277d 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -337,22 +337,23 @@ class GCodeSchedulerProblem(Problem):
                     start[:2] = np.dot(R2, start[:2])  # slightly rotated start point
                     end[:2] = np.dot(R1, end[:2])  # slightly rotated end point
 
-                # split ring segments of more than 135 degrees in two equal parts
+                # split ring segments of more than 135 degrees in two equal parts (and always those whose
+                # extended version closes the ring, since these can not be represented by one segment)
                 # use extended version of the ring
-                angle1 = np.arctan2(start[1], start[0])
-                angle2 = np.arctan2(end[1], end[0])
+                angle1 = np.arctan2(block.start[1]-block.center[1], block.start[0]-block.center[0])
+                angle2 = np.arctan2(block.end[1]-block.center[1], block.end[0]-block.center[0])
                 if block.type == 'G02':
-                    if angle1 < angle2:
+                    if angle1 <= angle2:
                         # clockwise so angle2 must be < angle1
                         # probably angle2 is smaller, but arctan2 returned a negative angle
                         angle1 += 2*np.pi
-                    arc_angle = angle1 - angle2
+                    arc_angle = angle1 - angle2 + 2*theta
                 elif block.type == 'G03':
-                    if angle1 > angle2:
+                    if angle1 >= angle2:
                         # counter-clockwise so angle2 must be > angle1
                         # probably angle2 is bigger, but arctan2 returned a negative angle
                         angle2 += 2*np.pi
-                    arc_angle = angle2 - angle1
+                    arc_angle = angle2 - angle1 + 2*theta
                 else:
                     raise RuntimeError('Invalid block type: ', block.type)
                 new_room = self.split_ring_segment(block, arc_angle, start, end, radius_in, radius_out, direction, tolerance, number)
@@ -508,7 +509,7 @@ class GCodeSchedulerProblem(Problem):
         return Environment(room=room)
 
     def split_ring_segment(self, block, arc_angle, start, end, radius_in, radius_out, direction, tolerance, number):
-        if (self.split_circle and arc_angle > 3*np.pi/4):
+        if ((self.split_circle and arc_angle > 3*np.pi/4) or arc_angle >= 2*np.pi):
             # compute middle of ring segment
             arc = arc_angle*0.5
             # adapt start and end to include tolerance, i.e. make ring a little wider, such that
-- 
2.43.0


From 9b37671f22c78cf495897ed41b05fb3629768a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:47 +0000
Subject: [PATCH 62/67] fix: parts of a split circle with variable tolerance
 had the start, end and number of the complete circle

---
 omgtools/problems/gcodeschedulerproblem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index 44d277d..18e9e2d 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -495,15 +495,16 @@ class GCodeSchedulerProblem(Problem):
 
                         divided_rooms.extend([
                                         {'shape': shape1, 'pose': pose, 'position': pose[:2], 'draw':True,
-                                        'start': block.start, 'end': seg_end1, 'number':number},
+                                        'start': r['start'], 'end': seg_end1, 'number':number},
                                         {'shape': shape2, 'pose': pose, 'position': pose[:2], 'draw':True,
                                         'start': seg_start2 , 'end': seg_end2, 'number':number+1},
                                         {'shape': shape3, 'pose': pose, 'position': pose[:2], 'draw':True,
-                                        'start': seg_start3, 'end': block.end, 'number':number+2}])
+                                        'start': seg_start3, 'end': r['end'], 'number':number+2}])
                     # assign divided rooms to old variable
                     new_room = divided_rooms
             # save original GCode block in the room description
             for r in new_room:
+                r['number'] = number
                 room.append(r)
                 number += 1
         return Environment(room=room)
-- 
2.43.0


From 5185f2d206907317c8b3ca32923240e87da13666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:47 +0000
Subject: [PATCH 63/67] fix: rooms of arcs with a radius smaller than the
 tolerance excluded a part of the arc

---
 omgtools/problems/gcodeschedulerproblem.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index 18e9e2d..0872add 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -313,7 +313,7 @@ class GCodeSchedulerProblem(Problem):
                                 'start': start3, 'end': block.end, 'number':number+2}]
 
             elif block.type in ['G02', 'G03']:
-                radius_in = block.radius - tolerance
+                radius_in = max(block.radius - tolerance, 0.)
                 radius_out = block.radius + tolerance
                 # move to origin
                 start = np.array(block.start) - np.array(block.center)
@@ -321,7 +321,7 @@ class GCodeSchedulerProblem(Problem):
 
                 # adapt start and end to include tolerance, i.e. make ring a little wider, such that
                 # perpendicular distance from start (and end) to border of ring = tolerance
-                theta = np.arctan2(tolerance,((radius_in+radius_out)*0.5))  # angle over which to rotate
+                theta = np.arctan2(tolerance,block.radius)  # angle over which to rotate
                 # provide two turning directions
                 R1 = np.array([[np.cos(theta), -np.sin(theta)],[np.sin(theta), np.cos(theta)]])  # rotation matrix
                 R2 = np.array([[np.cos(-theta), -np.sin(-theta)],[np.sin(-theta), np.cos(-theta)]])  # rotation matrix
@@ -399,7 +399,7 @@ class GCodeSchedulerProblem(Problem):
                         start1 = np.array(seg_start1)  # with including tolerance = start of shape
                         end1 = np.array(seg_start1)  # initialize
                         # angle over which to rotate to account for large tolerance
-                        delta_arc_big = np.arctan2(tolerance,((radius_in+radius_out)*0.5))
+                        delta_arc_big = np.arctan2(tolerance,block.radius)
                         if direction == 'CW':
                             R_delta = np.array([[np.cos(delta_arc_big), -np.sin(delta_arc_big)],[np.sin(delta_arc_big), np.cos(delta_arc_big)]])
                             start1[:2] = np.dot(R_delta, seg_start1[:2])  # slightly rotated start point
@@ -433,7 +433,7 @@ class GCodeSchedulerProblem(Problem):
                         start2 = np.array(seg_end1)
                         end2 = np.array(seg_end1)  # initialize
                         # angle over which to rotate to account for large tolerance
-                        delta_arc_small = np.arctan2(tool.tolerance_small,((radius_in+radius_out)*0.5))
+                        delta_arc_small = np.arctan2(tool.tolerance_small,block.radius)
                         if direction == 'CW':
                             R_delta = np.array([[np.cos(delta_arc_small), -np.sin(delta_arc_small)],[np.sin(delta_arc_small), np.cos(delta_arc_small)]])
                             start2[:2] = np.dot(R_delta, seg_start2[:2])  # slightly rotated start point
@@ -449,7 +449,7 @@ class GCodeSchedulerProblem(Problem):
                             R = np.array([[np.cos(theta), -np.sin(theta)],[np.sin(theta), np.cos(theta)]])
                             end2[:2] = np.dot(R, seg_start2[:2])  # rotate start point to end
 
-                        shape2 = Ring(radius_in = radius_in + (tolerance-tool.tolerance_small), radius_out = radius_out-(tolerance-tool.tolerance_small),
+                        shape2 = Ring(radius_in = max(block.radius - tool.tolerance_small, 0.), radius_out = block.radius + tool.tolerance_small,
                                       start = start2, end = end2, direction = direction)
 
                         seg_end2 = np.array(seg_start2)  # initialize
@@ -467,7 +467,7 @@ class GCodeSchedulerProblem(Problem):
                         start3 = np.array(seg_start3)
                         end3 = np.array(seg_start3)  # initialize
                         # angle over which to rotate to account for large tolerance
-                        delta_arc_big = np.arctan2(tolerance,((radius_in+radius_out)*0.5))
+                        delta_arc_big = np.arctan2(tolerance,block.radius)
                         if direction == 'CW':
                             R_delta = np.array([[np.cos(delta_arc_big), -np.sin(delta_arc_big)],[np.sin(delta_arc_big), np.cos(delta_arc_big)]])
                             start3[:2] = np.dot(R_delta, seg_start3[:2])  # slightly rotated start point
@@ -515,7 +515,7 @@ class GCodeSchedulerProblem(Problem):
             arc = arc_angle*0.5
             # adapt start and end to include tolerance, i.e. make ring a little wider, such that
             # perpendicular distance from start (and end) to border of ring = tolerance
-            theta = np.arctan2(tolerance,((radius_in+radius_out)*0.5))  # angle over which to rotate
+            theta = np.arctan2(tolerance,block.radius)  # angle over which to rotate
             mid1 = np.array(start)  # use np.array() to get a copy of the object
             mid2 = np.array(start)  # mid of second part of the segment
             if block.type == 'G02':
-- 
2.43.0


From 86f21cfad0d972cafd8f1b274219eeffd744b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:01 +0000
Subject: [PATCH 64/67] fix: first GCode segment was skipped when the start was
 aligned with the second one

---
 omgtools/problems/gcodeschedulerproblem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index 0872add..52fe00a 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -574,6 +574,10 @@ class GCodeSchedulerProblem(Problem):
             # this is the last segment, keep it until arrival
             valid = True
             return valid
+        elif not hasattr(self.vehicles[0], 'signals') and not hasattr(self.vehicles[0], 'result_splines'):
+            # tool did not move yet, so it still has to move over the first segment
+            valid = True
+            return valid
         else:
             if (self.n_segments == 1 and hasattr(self, 'next_segment')):
                 if self.point_in_extended_shape(self.next_segment, self.curr_state[:2], distance=self.vehicles[0].shapes[0].radius):
-- 
2.43.0


From 8141f67621c9d9ecb45a62d9d114fed467727b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:01 +0000
Subject: [PATCH 65/67] fix: tool was not kept at the height of the segment
 while machining in the plane

---
 omgtools/vehicles/tool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omgtools/vehicles/tool.py b/omgtools/vehicles/tool.py
index 5d83809..1de2262 100644
--- a/omgtools/vehicles/tool.py
+++ b/omgtools/vehicles/tool.py
@@ -245,6 +245,10 @@ class Tool(Vehicle):
             # movement in z-direction
             self.define_constraint(-z + z_min - rad[0], -inf, 0.)
             self.define_constraint(z - z_max  - rad[0], -inf, 0.)
+        else:
+            # movement in the xy-plane: stay within tolerance of this plane
+            self.define_constraint(-z + segment['start'][2] - self.tolerance, -inf, 0.)
+            self.define_constraint(z - segment['start'][2] - self.tolerance, -inf, 0.)
 
         # Constraints above impose that the spline must stay inside the infinite version of the segment: the
         # complete line, or the complete ring. This can cause a trajectory that is feasible, but still goes outside
-- 
2.43.0


From 3708221eb2e79607ab0a05744f21d3ef45ba70dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 66/67] fix: room constraints in 3D enlarged the vehicle shape
 in every direction by its collision margin

---
 omgtools/basics/shape.py     | 18 +++++++++++++++---
 omgtools/vehicles/vehicle.py |  2 ++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/omgtools/basics/shape.py b/omgtools/basics/shape.py
index 0139ef6..d9a65ce 100644
--- a/omgtools/basics/shape.py
+++ b/omgtools/basics/shape.py
@@ -341,6 +341,9 @@ class Sphere(Shape3D):
     def get_checkpoints(self):
         return [[0., 0., 0.]], [self.radius]
 
+    def get_extreme_points(self):
+        return self.get_checkpoints()
+
     def get_canvas_limits(self):
         return [np.array([-self.radius, self.radius]),
                 np.array([-self.radius, self.radius]),
@@ -364,6 +367,10 @@ class Polyhedron3D(Shape3D):
         rad = [self.radius for l in range(self.n_vert)]
         return chck, rad
 
+    def get_extreme_points(self):
+        # points (with the radius around them) of which this shape is the convex hull
+        return self.get_checkpoints()[0], [0. for l in range(self.n_vert)]
+
     def get_canvas_limits(self):
         max_xyz = np.amax(self.vertices, axis=1)
         min_xyz = np.amin(self.vertices, axis=1)
@@ -479,7 +486,12 @@ class Plate(Polyhedron3D):
         surfaces = [np.r_[surf, np.zeros((1, surf.shape[1]))] for surf in shape2d.surfaces]
         Polyhedron3D.__init__(self, vertices, surfaces, orientation, 0.5*height)
 
+    def get_extreme_points(self):
+        # the vertices of both faces of the plate
+        normal = self.rotate(self.orientation, np.array([0., 0., self.radius]))
+        points = np.c_[self.vertices + normal.reshape(3, 1), self.vertices - normal.reshape(3, 1)]
+        return [points[:, l].tolist() for l in range(points.shape[1])], [0. for l in range(points.shape[1])]
+
     def get_canvas_limits(self):
-        # the plate extends over its radius around the 2D shape
-        return [lims + np.array([-self.radius, self.radius])
-                for lims in Polyhedron3D.get_canvas_limits(self)]
+        points = np.array(self.get_extreme_points()[0])
+        return [np.array([min(points[:, k]), max(points[:, k])]) for k in range(3)]
diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index b98ff8d..a5bbdca 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -235,6 +235,8 @@ class Vehicle(OptiChild, PlotLayer):
                             sum([a[k]*(chck[k]+position[k]) for k in range(3)])-b+rad[l]+safety_distance-eps, -inf, 0)
             # room constraints
             if self.options['room_constraints']:
+                # the shape itself has to stay in the room
+                checkpoints, rad = shape.get_extreme_points()
                 lims = room['shape'].get_canvas_limits()
                 room_limits = []
                 room_limits += [lims[k]+room['position'][k] for k in range(self.n_dim)]
-- 
2.43.0


From f9c13d5d60d9aa4f002be732cdcd8f7777dda74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:40 +0000
Subject: [PATCH 67/67] fix: exported ADMM problems did not count the neighbors
 of the vehicle

---
 omgtools/export/export_admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export_admm.py b/omgtools/export/export_admm.py
index 6a5f78e..155788f 100755
--- a/omgtools/export/export_admm.py
+++ b/omgtools/export/export_admm.py
@@ -89,7 +89,7 @@ class ExportADMM(Export):
         constants['double RHO'] = problem.options['rho']
         constants['int INITITER'] = problem.options['init_iter']
         constants['int N_SHARED'] = problem.q_i_struct(0).cat.size(1)
-        constants['int N_NGHB'] = len(problem.fleet.get_neighbors(problem.vehicle))
+        constants['int N_NGHB'] = len(problem.q_ij)
         constants['std::string UPDZPROBLEM'] = '"' + problem.problem_upd_z.name() + '"'
         constants['std::string UPDLPROBLEM'] = '"' + problem.problem_upd_l.name() + '"'
         constants['std::string UPDRESPROBLEM'] = '"' + problem.problem_upd_res.name() + '"'
-- 
2.43.0

