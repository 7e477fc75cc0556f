From b44d9accdf1c63c4cb6edd5df2e5ccfb371c66ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:46 +0000
Subject: [PATCH 01/21] fix: PiecewisePoly.poly() for polynomials of degenerate
 degree

Dividing the coefficient array in place failed when the composed polynomial had
fewer coefficients than the basis order + 1 (constant or zero components), or
integer coefficients. Substitute the scaled variable instead.
---
 casadi_extras/collocation/piecewise_poly.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/collocation/piecewise_poly.py b/casadi_extras/collocation/piecewise_poly.py
index 59aa1d6..b501b7a 100644
--- a/casadi_extras/collocation/piecewise_poly.py
+++ b/casadi_extras/collocation/piecewise_poly.py
@@ -124,8 +124,7 @@ class PiecewisePoly(object):
         p[i](t) = self(interval[n] + t)[i, :]
         '''
         p = self._basis.compose(self._coefficients[n])
-        for p_i in p:
-            p_i.coef /= (self.intervals[n + 1] - self.intervals[n]) ** np.flip(np.arange(self._basis.order + 1))
+        scale = np.poly1d([1. / (self.intervals[n + 1] - self.intervals[n]), 0])
 
-        return p
+        return [p_i(scale) for p_i in p]
 
-- 
2.43.0


From a14c3e38d1be4c13467e2cefb7eca9d40febf077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:46 +0000
Subject: [PATCH 02/21] fix: integer overflow for integer-typed interpolation
 nodes

The products of node differences and the node powers were calculated in integer
arithmetic for integer nodes and silently overflowed for larger node sets.
---
 casadi_extras/collocation/polynomial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/collocation/polynomial.py b/casadi_extras/collocation/polynomial.py
index 4ce2325..4ee2f09 100644
--- a/casadi_extras/collocation/polynomial.py
+++ b/casadi_extras/collocation/polynomial.py
@@ -44,7 +44,7 @@ class PolynomialBasis(object):
         @param tau roots of the polynomials
         '''
 
-        tau = np.atleast_1d(tau)
+        tau = np.atleast_1d(tau).astype(float)
         assert tau.ndim == 1
         assert len(tau) > 0
 
@@ -150,9 +150,9 @@ def polynomialInterpolator(x):
     assert x.ndim == 1
     N = x.size - 1
     n = np.atleast_2d(np.arange(N + 1)).T
-    X = x ** n
+    X = x.astype(float) ** n
 
-    return lambda u, xx: np.dot(u, np.linalg.solve(X, xx ** n))
+    return lambda u, xx: np.dot(u, np.linalg.solve(X, np.multiply(xx, 1.) ** n))
 
 
 def barycentricInterpolator(x):
-- 
2.43.0


From b90fa2148686139a1fa4eaf2b83a8d7a8f579655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:46 +0000
Subject: [PATCH 03/21] fix: Pdq interpolator with continuity='left'

The column indices were not shifted for the missing first node, so the last
interval raised an IndexError and the others used the wrong columns. The value
at an interval boundary must come from the interval to the left.
---
 casadi_extras/collocation/collocation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index ed83c5c..e6465d6 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -231,11 +231,15 @@ class _PdqInterpolator(object):
         if x.shape[1] != expected_x_cols:
             raise ValueError('Invalid number of columns in interpolation point matrix')
 
+        # The first node has no data if the function is continuous from the left.
+        offset = 1 if continuity == 'left' else 0
+        side = 'left' if continuity == 'left' else 'right'
+
         l = []
         
         for ti in np.atleast_1d(t):
-            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, 'right') - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
-            l.append(np.dot(x[:, groups[i]], self._basis[i].interpolationMatrix(ti).T))
+            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, side) - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
+            l.append(np.dot(x[:, groups[i] - offset], self._basis[i].interpolationMatrix(ti).T))
 
         return np.hstack(l)
 
-- 
2.43.0


From 428383f51d243ba022262f6acdbcdeedfa9c6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:46 +0000
Subject: [PATCH 04/21] fix: parallel() drops the equations of the models

The stacked ode and alg were passed to the Dae base class, which ignores them.
---
 casadi_extras/dae_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index 2f73175..cdf3e84 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -290,4 +290,4 @@ def parallel(models):
     for attr in ['x', 'z', 'u', 'p', 'ode', 'alg', 'quad']: # TODO: what do we do with t?
         d[attr] = ce.struct_MX([ce.entry('model_{0}'.format(i), expr=getattr(m, attr)) for i, m in enumerate(models)])
 
-    return Dae(**d)
\ No newline at end of file
+    return SemiExplicitDae(**d)
\ No newline at end of file
-- 
2.43.0


From b4eceb312afd999e01c26e89a60718c0cabccfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:46 +0000
Subject: [PATCH 05/21] fix: vertcat() of inequalities without a nominal value

Missing nominal values raised an exception; they are NaN in the concatenation,
and the result has no nominal value if none of the inequalities has one.
---
 casadi_extras/inequality.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/inequality.py b/casadi_extras/inequality.py
index d246ca0..80d7a24 100644
--- a/casadi_extras/inequality.py
+++ b/casadi_extras/inequality.py
@@ -63,6 +63,10 @@ class BoundedVariable(Inequality):
         return super().__new__(cls, cs.MX.sym(name, nominal.shape), lb, ub, nominal)
 
 
+def _nominalOrNan(ineq):
+    return cs.DM.nan(ineq.expr.shape) if ineq.nominal is None else ineq.nominal
+
+
 def vertcat(ineq):
     '''Vertical concatenation of inequalities.
     '''
@@ -71,11 +75,14 @@ def vertcat(ineq):
         expr = struct_MX([entry(k, expr=v.expr) for k, v in ineq.items()])
         lb = expr(dict((k, v.lb) for k, v in ineq.items()))
         ub = expr(dict((k, v.ub) for k, v in ineq.items()))
-        nominal = expr(dict((k, v.nominal) for k, v in ineq.items()))
+        nominal = expr(dict((k, _nominalOrNan(v)) for k, v in ineq.items()))
     else:
         expr=cs.vertcat(*[a.expr for a in ineq])
         lb=cs.vertcat(*[a.lb for a in ineq])
         ub=cs.vertcat(*[a.ub for a in ineq])
-        nominal=cs.vertcat(*[a.nominal for a in ineq])
+        nominal=cs.vertcat(*[_nominalOrNan(a) for a in ineq])
+
+    if all(a.nominal is None for a in (ineq.values() if isinstance(ineq, dict) else ineq)):
+        nominal = None
 
     return Inequality(expr=expr, lb=lb, ub=ub, nominal=nominal)
\ No newline at end of file
-- 
2.43.0


From ddbe18660cdbd93af4256c2137f651c41b76d116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:46 +0000
Subject: [PATCH 06/21] fix: save() and struct_load() use the removed file()
 builtin

---
 casadi_extras/structure3.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 90eb856..b36fb92 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -769,7 +769,8 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   class FlatIndexDispatcher(Dispatcher):
     def __call__(self,payload,canonicalIndex,extraIndex=None,entry=None):
@@ -1060,7 +1061,8 @@ class DMStruct(MatrixStruct):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   def __setstate__(self,state):
     cs = CasadiStructure.__new__(CasadiStructure)
@@ -1487,4 +1489,5 @@ class DataReferenceSquaredRepeated(DataReference):
 
 def struct_load(filename):
     import pickle
-    return pickle.load(file(filename,"rb"))
+    with open(filename,"rb") as f:
+      return pickle.load(f)
-- 
2.43.0


From c3ffdcc2b95790e0e48eeb96a4901c35d834eb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:46 +0000
Subject: [PATCH 07/21] fix: sub-indices of symmetric entries read structural
 zeros

The sub-index was applied to the stored upper triangle before mirroring it, so
elements below the diagonal read as zero and blocks were mirrored wrongly. Index
the full symmetric matrix instead.
---
 casadi_extras/structure3.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index b36fb92..721e358 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -594,13 +594,12 @@ class GetterDispatcher(Dispatcher):
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
 
-      i = performExtraIndex(self.struct.map[canonicalIndex],extraIndex=extraIndex,entry=entry)
-
       try:
         if type is None:
+          i = performExtraIndex(self.struct.map[canonicalIndex],extraIndex=extraIndex,entry=entry)
           return correct_vector_indexing(self.master, i)
         elif type=="symm":
-          return triu2symm(self.master[i])
+          return performExtraIndex(triu2symm(self.master[self.struct.map[canonicalIndex]]),extraIndex=extraIndex,entry=entry)
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
       except Exception as e:
-- 
2.43.0


From 6c627a29264243df57e6c5a4dbd0e06a3f03155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:46 +0000
Subject: [PATCH 08/21] fix: stale entries of mutable MX structures after
 assignment

Entries are read from the map built by buildMap(), which was not updated when an
entry was assigned.
---
 casadi_extras/structure3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 721e358..464cf4b 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1092,6 +1092,10 @@ class MXStruct(MatrixStruct,VertsplitStructure):
 
     self.buildMap()
 
+  def __setitem__(self,powerIndex,value):
+    MatrixStruct.__setitem__(self,powerIndex,value)
+    self.buildMap()
+
   def __MX__(self):
     return self.cat
 
-- 
2.43.0


From c5d574fc92dec11844d032224c250d7174c3097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:20 +0000
Subject: [PATCH 09/21] fix: integrate quadratures of models with parameters

The quadrature expressions of the scheme depend on its parameter symbol,
which was left free, so the integrator could not be built for a model that
has both parameters and quadratures.
---
 casadi_extras/collocation/collocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index e6465d6..81e00ea 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -544,7 +544,7 @@ class CollocationIntegrator(cs.Function):
         sol_K = sol['K']
         sol_Z = sol['Z']
         [sol_q, sol_Q, sol_X] = cs.substitute([scheme.q, scheme.Q, scheme.X], 
-            [scheme.x, scheme.K, scheme.Z], [sol_x, sol_K, sol_Z])
+            [scheme.x, scheme.K, scheme.Z, scheme.p], [sol_x, sol_K, sol_Z, dae.p])
 
         # TODO: return correct value for zf!
         # TODO: return only x instead of x and xf?
-- 
2.43.0


From 8ae8cfe49c1cd0c684a53a1543cac10a40231d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:15 +0000
Subject: [PATCH 10/21] fix: give matrix positions of flat indices as (row,
 column)

The lookup of a flat position with extraMode=2 returned (column, row), so
that indexing the structure with it addressed the transposed element.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 464cf4b..3d581b0 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -811,7 +811,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
       k += sp.nnz()
       it = tuple(i)
       self.map[it] = m
-      self.lookuptable+=[(it,kk,p) for kk,p in enumerate(zip(sp.get_col(),sp.row()))]
+      self.lookuptable+=[(it,kk,p) for kk,p in enumerate(zip(sp.row(),sp.get_col()))]
       for a in canonicalIndexAncestors(it)[1:]:
         if a in hmap:
           hmap[a].append(m)
-- 
2.43.0


From f956adcb215f5d33d2887ccec6e587b6b831cf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:15 +0000
Subject: [PATCH 11/21] fix: allow row entries in nested structures

The nonzeros of a row are a row, so stacking the indices of a nested
structure with a 1-by-n entry failed or gave a matrix.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 3d581b0..109e728 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -819,7 +819,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
           hmap[a] = [m]
     self.size = k
     for k,v in hmap.items():
-      hmap[k] = vertcat(*[i.nz[:] for i in v])
+      hmap[k] = vertcat(*[casadi.vec(i.nz[:]) for i in v])
     self.map.update(hmap)
 
     class StructureGetter:
-- 
2.43.0


From a65053eae75681a8a28d89bebb45883b0849cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:15 +0000
Subject: [PATCH 12/21] fix: resolve lists of entry names like single names

A list of names in a power index ignored the entries: repeated entries
and further indices raised, symmetric entries read as triangular.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 109e728..81f3603 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -408,7 +408,7 @@ class Structure(object):
                    ])
         elif isinstance(p,list):
           return [
-                     self.traverseByPowerIndex(
+                     self.dict[s].traverseByPowerIndex(
                        powerIndex[1:],
                        canonicalIndex=canonicalIndex+(s,),
                        dispatcher=dispatcher,
-- 
2.43.0


From 27ac90459d886d3ad640835e5121ce813de10cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:15 +0000
Subject: [PATCH 13/21] fix: distribute lists over the selected repetitions in
 order

Writing a list to a slice or list of repetitions used the repetition
number as position in the list, so that what was written did not read
back or was rejected as too short.
---
 casadi_extras/structure3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 81f3603..1495033 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -241,9 +241,9 @@ class StructEntry:
                       dims=dims[1:],
                       canonicalIndex=canonicalIndex+(canonical(i,s),),
                       dispatcher=dispatcher,
-                      payload = payloadUnpack(payload,i)
+                      payload = payloadUnpack(payload,k)
                     )
-                 for i in p]
+                 for k,i in enumerate(p)]
         elif isinstance(p,dict):
           raise Exception("powerIndex entry {} cannot be used in list context.")
         elif isinstance(p,set):
-- 
2.43.0


From 3167c9d93fc3d27a9d68e314193a60d3640b2005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:15 +0000
Subject: [PATCH 14/21] fix: apply callables of power indices to values of
 entries

Reading an entry without repetitions through a callable applied it to
the positions of the elements instead of the elements.
---
 casadi_extras/structure3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 1495033..83ec9ea 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -582,6 +582,9 @@ class CasadiStructureDerivable:
 
 class GetterDispatcher(Dispatcher):
   def __call__(self,payload,canonicalIndex,extraIndex=None,entry=None):
+    if extraIndex and isinstance(extraIndex[0], collections.abc.Callable) and not isinstance(extraIndex[0],Delegater):
+      return extraIndex[0](self(payload,canonicalIndex,extraIndex=extraIndex[1:],entry=entry))
+
     type = None if entry is None else entry.type
     if canonicalIndex in self.struct.map:
 
-- 
2.43.0


From 05788cad5f67173c86c69a110692d0fd77430917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:25 +0000
Subject: [PATCH 15/21] fix: empty symbolic structures have symbolic flat
 vectors

The flat vector of a structure without any elements was numeric, so that
it could not be used as a symbol or expression.
---
 casadi_extras/structure3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 83ec9ea..c26dbee 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -956,7 +956,7 @@ class ssymStruct(CasadiStructured,MasterGettable):
       e = self.struct.getStructEntryByCanonicalIndex(i)
       s.append(SX.sym("_".join(map(str,i)),e.sparsity.nnz()))
 
-    self.master = vertcat(*[i.nz[:] for i in s])
+    self.master = vertcat(SX(0,1),*[i.nz[:] for i in s])
 
     for e in self.entries:
       if e.sym is not None:
@@ -1164,7 +1164,7 @@ class MXVeccatStruct(CasadiStructured,MasterGettable):
       raise Exception("Problem in MX vecNZcat structure cat: missing expressions. The following entries are missing: %s" % str(missing))
 
     if self.dirty:
-      self.master_cached = vertcat(*[casadi.vec(i if i.is_dense() else i.nz[:]) for i in self.storage])
+      self.master_cached = vertcat(MX(0,1),*[casadi.vec(i if i.is_dense() else i.nz[:]) for i in self.storage])
 
     return self.master_cached
 
-- 
2.43.0


From f513249669b31ec2bdb7ace7ceb4f9e28ffaff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:57 +0000
Subject: [PATCH 16/21] fix: repeated views of MX matrices

Building a repeated or repeated square view of an MX matrix split the
matrix itself instead of its flat vector and raised.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index c26dbee..8274061 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -971,7 +971,7 @@ class VertsplitStructure:
     if parent is None:  parent = self.master
 
     if isinstance(parent,DataReference):
-      parent = parent.a
+      parent = parent.v
 
     ks  = []
     its = []
-- 
2.43.0


From 83894788d39292ffc539d097c12474a87caf5408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:57 +0000
Subject: [PATCH 17/21] fix: parseMatrix() accepts single rows of any length

A matrix with one row was taken as scalars to be filled into the whole
structure instead of being rejected.
---
 casadi_extras/structure3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 8274061..dee541c 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -516,6 +516,9 @@ class CasadiStructureDerivable:
     '''
 
     data = np.atleast_2d(data)
+    if data.shape[0] != self.size:
+      raise Exception("Expecting %d x n matrix. Got %s" % (self.size,str(data.shape)))
+
     return dict((k, horzcat(*[self(d)[k] for d in data.T])) for k in self.keys())
 
 
-- 
2.43.0


From 749dde27532a94c8c1917746cb3a65b5e3219857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:21 +0000
Subject: [PATCH 18/21] fix: linear indices below the diagonal of symmetric
 entries

Writing a scalar to an element below the diagonal by its linear index
was silently ignored.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index dee541c..7111aaa 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -625,8 +625,8 @@ class SetterDispatcher(Dispatcher):
         elif type=="symm":
           iflip = performExtraIndex(self.struct.map[canonicalIndex],extraIndex=extraIndex,entry=entry,flip=True)
           if payload_.is_scalar():
+            i = performExtraIndex(triu2symm(self.struct.map[canonicalIndex]),extraIndex=extraIndex,entry=entry)
             self.master[i] = payload_
-            self.master[iflip] = payload_
           else:
             oi = performExtraIndex(DM.ones(entry.originalsparsity),extraIndex=extraIndex,entry=entry)
             if oi.sparsity()!=payload_.sparsity():
-- 
2.43.0


From 0af84ac5bfc7cefc72fd8093ea4bf1173a5e066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:39 +0000
Subject: [PATCH 19/21] fix: reject orders that repeat or leave out entries

An entry named twice in the order of a structure left unreachable gaps
in the flat vector, one left out had no place in it at all.
---
 casadi_extras/structure3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 7111aaa..7c28f66 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -290,6 +290,9 @@ class Structure(object):
           if ee not in self.dict:
             raise Exception("Order '%s' is invalid." % ee)
 
+    if sorted(self.keyslist) != sorted(self.dict.keys()):
+      raise Exception("Order %s is invalid: every entry must be named exactly once." % str(self.order))
+
   def keys(self):
     return self.keyslist
 
-- 
2.43.0


From b8c62cd7b141d4b0f6ed682c96acf70d2f6f81e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:05 +0000
Subject: [PATCH 20/21] fix: keep the full shape of pickled symmetric entries

Writing a matrix to a symmetric entry of a loaded structure raised an
AttributeError.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 7c28f66..a76917c 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1338,7 +1338,7 @@ class CasadiStructEntry(StructEntry):
       return "symm(" +  self.sparsity.dim() + ")"
 
   def __getstate__(self):
-    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","type","repeat","shapestruct","dims"])
+    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","originalsparsity","type","repeat","shapestruct","dims"] if hasattr(self,k))
 
 
 def entry(*args,**kwargs):
-- 
2.43.0


From 15a309eb38c4fce4d4e542851dd6b4b47077c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:13:36 +0000
Subject: [PATCH 21/21] fix: symmetric entries with infinite elements read as
 NaN

Reading a symmetric entry computed A + A' - diag(A) on the stored values,
which gives NaN for infinite diagonal elements (common for bounds). The
positions are mirrored now instead of the values.
---
 casadi_extras/structure3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index a76917c..697ce6a 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -599,7 +599,7 @@ class GetterDispatcher(Dispatcher):
         if type is None:
           return r
         elif type=="symm":
-          return triu2symm(r)
+          return self.master[triu2symm(self.struct.map[canonicalIndex])]
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
 
@@ -608,7 +608,7 @@ class GetterDispatcher(Dispatcher):
           i = performExtraIndex(self.struct.map[canonicalIndex],extraIndex=extraIndex,entry=entry)
           return correct_vector_indexing(self.master, i)
         elif type=="symm":
-          return performExtraIndex(triu2symm(self.master[self.struct.map[canonicalIndex]]),extraIndex=extraIndex,entry=entry)
+          return performExtraIndex(self.master[triu2symm(self.struct.map[canonicalIndex])],extraIndex=extraIndex,entry=entry)
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
       except Exception as e:
-- 
2.43.0

