From 544b87c5475dae5580c7d9f6aca2b3108d38fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:10 +0000
Subject: [PATCH 01/40] fix: saving a distribution no longer changes its
 in-memory dimensions

write_serialised() replaced None dims by the string 'None' in the very dict
shared with the distribution being saved.
---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 0106cd1..f6fc977 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -478,7 +478,7 @@ def write_serialised(path, serialised, aux_dict={}):
       group_write = hdf_write.create_group(dist_name)
       for key, val in dist_dict.items():
         if key == 'attrs':
-          attrs = dist_dict['attrs']
+          attrs = type(val)(val) # copy as these dims belong to the distribution
           for k, v in attrs.items():
             if v is None:
               attrs[k] = 'None'
-- 
2.43.0


From 7c6e74cd6b3276e66da0a506ac0405d49d609d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:25 +0000
Subject: [PATCH 02/40] fix: a save that cannot reach the disk raises and
 leaves the previous file intact

h5py swallows write errors raised while closing a dataset, so write_dist() and
write_serialised() reported success with zeros on disk after ENOSPC or EIO, and
a save that did raise left path truncated or holding part of the data.
---
 probayes/pd_utils.py | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index f6fc977..0f40ac9 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -4,6 +4,7 @@
 #-------------------------------------------------------------------------------
 import collections
 import functools
+import os
 import numpy as np
 import h5py
 from probayes.vtypes import isscalar, issingleton, isunitsetint
@@ -473,6 +474,28 @@ def write_serialised(path, serialised, aux_dict={}):
         f"Aux dict subkeys must be str, found {subkey}"
       assert isinstance(subval, np.ndarray), \
         f"Aux dict subvals must be NumPy arrays, found {type(subval)}"
+  if hasattr(path, 'write'): # file-like objects cannot be renamed
+    return _write_hdf(path, serialised, aux_dict)
+
+  # Write elsewhere then rename so that path never holds an incomplete save
+  path = os.fsdecode(path)
+  partial = path + '.partial'
+  try:
+    _write_hdf(partial, serialised, aux_dict)
+    os.replace(partial, path)
+  except BaseException:
+    if os.path.exists(partial):
+      os.remove(partial)
+    raise
+
+#-------------------------------------------------------------------------------
+def _write_dataset(group, key, val):
+  dataset = group.create_dataset(key, data=val)
+  dataset.flush() # since h5py ignores any failure to write while closing
+  return dataset
+
+#-------------------------------------------------------------------------------
+def _write_hdf(path, serialised, aux_dict):
   with h5py.File(path, 'w', libver='latest') as hdf_write:
     for dist_name, dist_dict in serialised.items():
       group_write = hdf_write.create_group(dist_name)
@@ -482,22 +505,22 @@ def write_serialised(path, serialised, aux_dict={}):
           for k, v in attrs.items():
             if v is None:
               attrs[k] = 'None'
-          group_write[key] = np.array(len(attrs))
-          group_write[key].attrs.update(attrs)
+          dataset = _write_dataset(group_write, key, np.array(len(attrs)))
+          dataset.attrs.update(attrs)
           if isinstance(attrs, collections.OrderedDict):
-            group_write[key].attrs.update({'order': list(attrs.keys())})
+            dataset.attrs.update({'order': list(attrs.keys())})
         else:
           if isinstance(val, np.ndarray):
-            group_write[key] = val
+            _write_dataset(group_write, key, val)
           elif isinstance(val, set):
             val_set = np.zeros(sorted(val) + [0], dtype='S')
-            group_write[key] = val_set
+            _write_dataset(group_write, key, val_set)
           else:
-            group_write[key] = np.array(val)
+            _write_dataset(group_write, key, np.array(val))
     for aux_name, aux_data in aux_dict.items():
       group_write = hdf_write.create_group(aux_name)
       for key, val in aux_data.items():
-        group_write[key] = val
+        _write_dataset(group_write, key, val)
 
 #-------------------------------------------------------------------------------
 def read_serialised(path):
-- 
2.43.0


From 4dbd0d6704f9fa59380590eaec84bb08c046cf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:25 +0000
Subject: [PATCH 03/40] fix: refuse to serialise two distributions under one
 name

serialise() and hence write_dist() silently kept only the last of several
distributions over the same variables.
---
 probayes/pd_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 0f40ac9..03e78a9 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -438,7 +438,11 @@ def serialise(*args):
   for arg in args:
     if not isinstance(arg, (PD, Distribution)):
       raise TypeError(f"Unrecogised type to serialise: {type(arg)}")
-    serialised.update(arg.serialise())
+    arg_serialised = arg.serialise()
+    for name in arg_serialised:
+      assert name not in serialised, \
+        f"Cannot serialise more than one distribution named {name}"
+    serialised.update(arg_serialised)
   return serialised
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 59c6a1b6599d825149d047bd8c39bda07dc1f501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:25 +0000
Subject: [PATCH 04/40] fix: SP.walk(sampler, stop) takes no more samples than
 it returns

The loop drew one further sample from the sampler and dropped it, so each
successive walk lost a step of the chain.
---
 probayes/sp.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/probayes/sp.py b/probayes/sp.py
index 35bb45e..02b0666 100644
--- a/probayes/sp.py
+++ b/probayes/sp.py
@@ -3,6 +3,7 @@
 #-------------------------------------------------------------------------------
 import collections
 import inspect
+import itertools
 import warnings
 from probayes.sd import SD
 from probayes.expression import Expression
@@ -287,11 +288,6 @@ class SP (SD):
         "No stop specification set - this walk may proceed indefinitely")
     if stop is None: 
       return collections.deque([sample for sample in sampler])
-    steps = collections.deque()
-    for sample in sampler:
-      if len(steps) >= stop:
-        break
-      steps.append(sample)
-    return steps
+    return collections.deque(itertools.islice(sampler, stop))
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 2ca34a9c30ca3accc374eb4432bfde643c5ca74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:44 +0000
Subject: [PATCH 05/40] fix: divide log probabilities in log space

div_prob() exponentiated both operands first, so ratios of log densities below
about -745 collapsed to zero and Metropolis chains could never move.
---
 probayes/pscales.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index a31b873..b60c89b 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -230,6 +230,16 @@ def div_prob(dividend, divisor, *args, pscale=None):
     pscales[0] = eval_pscale(args[0])
     pscales[1] = eval_pscale(args[1])
     pscale = pscale or pscales[0]
+
+  # Subtract log probabilities directly since their exponents may underflow
+  if iscomplex(pscales[0]) and iscomplex(pscales[1]):
+    dividend = rescale(dividend, pscales[0], COMPLEX_ZERO)
+    divisor = rescale(divisor, pscales[1], COMPLEX_ZERO)
+    quotient = np.where(dividend > NEARLY_NEGATIVE_INF,
+                        dividend - np.maximum(NEARLY_NEGATIVE_INF, divisor),
+                        NEARLY_NEGATIVE_INF)
+    return rescale(quotient[()], COMPLEX_ZERO, pscale)
+
   dividend = rescale(dividend, pscales[0], None)
   divisor = rescale(divisor, pscales[1], None)
   quotient = dividend / np.maximum(NEARLY_POSITIVE_ZERO, divisor)
-- 
2.43.0


From 1aa045ca6274ccfd8d71c75ccbe19aa258c77116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:08 +0000
Subject: [PATCH 06/40] fix: Hastings scores weigh densities in their own
 scales and the documented direction

Log densities were multiplied by exponentiated proposals, and the proposal
ratio was inverted with respect to q(succ|pred), q(pred|succ), so chains over
log probabilities targeted a tempered or diverging density.
---
 probayes/sp_utils.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index f2fe3d5..e58018b 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -2,7 +2,7 @@
 
 import numpy as np
 from probayes.vtypes import isscalar
-from probayes.pscales import rescale, div_prob
+from probayes.pscales import rescale, div_prob, NEARLY_NEGATIVE_INF
 
 #-------------------------------------------------------------------------------
 def sample_generator(sp, sampler_id, *args, stop=None, **kwds):
@@ -24,7 +24,8 @@ def metropolis_scores(opqr, pscale=None):
   if pred is None:
     return None
   assert isscalar(pred.prob), "Preceding probability distribution non-scalar"
-  return min(1., div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.))
+  return min(1., div_prob(succ.prob, pred.prob, 
+                          succ.pscale, pred.pscale, pscale=1.))
 
 #-------------------------------------------------------------------------------
 def metropolis_thresh(*args, **kwds):
@@ -49,19 +50,18 @@ def hastings_scores(opqr, pscale=None):
     return None
   else:
     assert isscalar(prop.prob), "Proposal probability non-scalar"
-    prop = rescale(prop.prob, pscale, 1.)
-    if prop <= 0.:
+    logq = rescale(prop.prob, prop.pscale, 0.j)
+    if logq <= NEARLY_NEGATIVE_INF:
       return None
     if revp is None:
-      return min(1., div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.))
+      return min(1., div_prob(succ.prob, pred.prob, 
+                              succ.pscale, pred.pscale, pscale=1.))
     else:
       assert isscalar(revp.prob), "Reverse proposal probability non-scalar"
-      revp = rescale(revp.prob, pscale, 1.)
-      if revp <= 0.:
-        return 1.
-      return min(1., div_prob(succ.prob * prop, 
-                              pred.prob * revp, 
-                              pscale, pscale, pscale=1.))
+      logr = rescale(revp.prob, revp.pscale, 0.j)
+      return min(1., div_prob(rescale(succ.prob, succ.pscale, 0.j) + logr,
+                              rescale(pred.prob, pred.pscale, 0.j) + logq,
+                              0.j, 0.j, pscale=1.))
 
 #-------------------------------------------------------------------------------
 def hastings_thresh(*args, **kwds):
-- 
2.43.0


From b5705711e6f4aace069fe1e80c23a23cb3ff8a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:08 +0000
Subject: [PATCH 07/40] fix: evaluate the reverse proposal of an asymmetric
 transition pair

The reverse proposal always repeated the forward value, so no Hastings
correction was made for set_tran((forward, reverse)).
---
 probayes/rf.py | 8 +++-----
 probayes/sd.py | 1 +
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 06180db..0febda3 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -528,12 +528,10 @@ class RF (Field, Prob):
     name = margcond_str(marg, cond)
     vals = collections.OrderedDict(dist)
     dims = dist.dims
-    # This next line needs to be modified to handle new API
-    """
-    prob = dist.prob if self._sym_tran or self._tran is None \
-           else self._tran[1](dist)
-    """
     prob = dist.prob
+    if self._tran is not None and self._tran.callable and \
+        self._tran.ismulti and not self._tran.isscipy:
+      prob = self.eval_tran(vals, reverse=True)
     pscale = dist.pscale
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale)
 
diff --git a/probayes/sd.py b/probayes/sd.py
index 77781c0..4e79f92 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -102,6 +102,7 @@ class SD (Dependence, RF):
     self._tran_obj = _tran
     self.set_prop_obj(self._tran_obj)
     self._tran = _tran.tran
+    self._sym_tran = _tran._sym_tran
     return self._tran
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From d5d08197a61fd45b27d774fc11baef43c8eb2084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:08 +0000
Subject: [PATCH 08/40] fix: scalar steps bounce off the open end of half-open
 bounds

The array branch already did so; a scalar landing exactly on the excluded
bound was let through.
---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 9f56198..2923738 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -715,12 +715,12 @@ class Variable (Icon):
         if not self._inside(vals):
           vals = values
       elif maybe_bounce[0]:
-        if vals < self._vlims[0]:
+        if vals <= self._vlims[0]:
           vals = values
         else:
           vals = np.minimum(self._vlims[1], vals)
       else:
-        if vals > self._vlims[1]:
+        if vals >= self._vlims[1]:
           vals = values
         else:
           vals = np.maximum(self._vlims[0], vals)
-- 
2.43.0


From cd7316bc7104fe587584f27677e71ba7c66a4302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:08 +0000
Subject: [PATCH 09/40] fix: integer list deltas include the documented upper
 end

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 2923738..27144b6 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -628,7 +628,7 @@ class Variable (Icon):
       if self._vtype in VTYPES[bool]:
         pass
       elif self._vtype in VTYPES[int]:
-        delta = np.random.randint(-delta, delta)
+        delta = np.random.randint(-delta, delta+1)
       else:
         delta = np.random.uniform(-delta, delta)
     assert isscalar(delta), "Unrecognised delta type: {}".format(delta)
-- 
2.43.0


From 3589108c6d8a1afc17d5500175dbca1b038db055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:57 +0000
Subject: [PATCH 10/40] fix: truncate conditional normal samples at the limits
 of the variable

The cumulative limits ignored the conditional mean, so samples fell outside the
variable's own limits.
---
 probayes/cond_cov.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/probayes/cond_cov.py b/probayes/cond_cov.py
index 1e7621f..720f444 100644
--- a/probayes/cond_cov.py
+++ b/probayes/cond_cov.py
@@ -16,7 +16,6 @@ class CondCov:
   _stdv = None # Conditional standard deviations
   _coef = None # Regression coefficients
   _lims = None  # Recentered limits (Nx2 array)
-  _cdfs = None  # cdf-limits
 
 #-------------------------------------------------------------------------------
   def __init__(self, mean, cov, lims):
@@ -35,8 +34,6 @@ class CondCov:
       cov = np.delete(np.delete(self._cov, (i), axis=1), (i), axis=0)
       self._coef[i] = ru.dot(np.linalg.inv(cov))
       self._stdv[i] = np.sqrt(self._cov[i, i] - float(self._coef[i].dot(ll)))
-    self._cdfs = np.array([scipy.stats.norm.cdf(lim, loc=0., scale=self._stdv[i]) \
-                          for i, lim in enumerate(self._lims)])
 
 #-------------------------------------------------------------------------------
   def interp(self, *args, cond_pdf=False):
@@ -54,12 +51,14 @@ class CondCov:
         dmu[i] = arg - self._mean[i]
     assert idx is not None, "No variable specified for interpolation"
     dmu = np.delete(dmu, (idx), axis=0)
-    lims = self._cdfs[idx]
     number = list(args[idx])[0]
-    cdf = uniform(lims[0], lims[1], number)
-    mean = self._mean[idx] + float(self._coef[idx].dot(dmu))
+    offs = float(self._coef[idx].dot(dmu))
+    mean = self._mean[idx] + offs
     stdv = self._stdv[idx]
+    lims = scipy.stats.norm.cdf(self._lims[idx], loc=offs, scale=stdv)
+    cdf = uniform(lims[0], lims[1], number)
     vals = scipy.stats.norm.ppf(cdf, loc=mean, scale=stdv)
+    vals = np.clip(vals, *(self._lims[idx] + self._mean[idx]))
     if not cond_pdf:
       return vals
     return vals, scipy.stats.norm.pdf(vals, loc=mean, scale=stdv)
-- 
2.43.0


From caaffe4d7a8ad48c642c8da4e472fca25e71bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:57 +0000
Subject: [PATCH 11/40] fix: only wrap methods that a frozen scipy multivariate
 object has

multivariate_normal gained an unfrozen fit(), which made every such
probability fail on construction.
---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 371f837..3108f2a 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -210,7 +210,7 @@ class Prob (Expression, SympyProb):
 
       # Iterate available methods
       for method in SCIPY_DIST_METHODS:
-        if hasattr(self._prob, method):
+        if hasattr(self._expr, method):
           call = functools.partial(Expression._partial_call, self, 
                                    getattr(self._expr, method),
                                    *self._args, **self._kwds)
-- 
2.43.0


From 9a12dbf261a8748340308aa107ff81ddceff53b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:57 +0000
Subject: [PATCH 12/40] fix: never sample a transition of zero probability

When the column sum rounds below one, a draw above it selected the last state
even if that transition has probability zero.
---
 probayes/rv_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index b6087b9..b2a4d97 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -70,7 +70,8 @@ def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
     succ_cmf = uniform(0., 1., succ_cmf)
   else:
     succ_cmf = np.atleast_1d(succ_cmf)
-  succ_idx = np.maximum(0, np.minimum(support-1, np.digitize(succ_cmf, cmf)))
+  last_idx = np.flatnonzero(prob[:, pred_idx])[-1] # cmf[-1] may round below 1.
+  succ_idx = np.maximum(0, np.minimum(last_idx, np.digitize(succ_cmf, cmf)))
   return vset[succ_idx], pred_idx, succ_idx
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 94ecbf0cc8689d7a0852b92bde184f25b2f65873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:12 +0000
Subject: [PATCH 13/40] fix: indexed functions keep no call state on the shared
 object

f[i] stored i on f and returned the same bound method for every i, so a call
used whichever index was taken last, by any holder of f.
---
 probayes/cf.py   | 15 ++-------------
 probayes/func.py | 25 ++++++++++---------------
 2 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/probayes/cf.py b/probayes/cf.py
index 5f212ec..d6a950a 100644
--- a/probayes/cf.py
+++ b/probayes/cf.py
@@ -4,6 +4,7 @@ dependence of an about output RF with respect to an input RF or the
 by the dependence of a subgroup of RVs with respect to the others. 
 '''
 import collections
+import functools
 from probayes.rv import RV
 from probayes.func import Func
 
@@ -51,7 +52,6 @@ class CF (Func):
 
   # Private
   __inpdict = None
-  __unknown = None
 
 #-------------------------------------------------------------------------------
   @property
@@ -97,7 +97,6 @@ class CF (Func):
     if self.__inpdict:
       if isinstance(inp, (tuple, list)):
         inp = {key: '' for key in inp}
-    self.__unknown = None
 
     # Handle inp is a random field first
     if not self.__inpdict and inp is not None:
@@ -205,16 +204,6 @@ class CF (Func):
      return super().__getitem__(spec)
    assert self.__inpdict, \
        "Input spec as a string only supported with a OrderedDict inp"
-   self.__unknown = spec
-   return self._call
-
-#-------------------------------------------------------------------------------
-  def _call(self, *args, **kwds):
-    if self.__unknown is None:
-      return super()._call(*args, **kwds)
-    kwds = dict(kwds)
-    kwds.update({'unknown': self.__unknown})
-    self.__unknown = None
-    return super()._call(*args, **kwds)
+   return functools.partial(self._call, None, unknown=spec)
 
 #-------------------------------------------------------------------------------
diff --git a/probayes/func.py b/probayes/func.py
index b299ede..cf53333 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -10,6 +10,7 @@ Func may be a tuple of callable/uncallable functions
 import numpy as np
 import scipy.stats
 import collections
+import functools
 from probayes.vtypes import isscalar, isunitary
 
 #-------------------------------------------------------------------------------
@@ -63,7 +64,6 @@ class Func:
   __scipycalls = None
   __order = None
   __delta = None
-  __index = None
 
 #-------------------------------------------------------------------------------
   def __init__(self, func=None, *args, **kwds):
@@ -236,7 +236,7 @@ class Func:
     return self.__delta
 
 #-------------------------------------------------------------------------------
-  def _call(self, *args, **kwds):
+  def _call(self, _index, *args, **kwds):
     """ Private call used by the wrapped Func interface.
     (see __call__ and __getitem__).
     """
@@ -249,13 +249,12 @@ class Func:
 
     # Handle scipy objects separately
     if self.__isscipy:
-      return self._call_scipy(*args, **kwds)
+      return self._call_scipy(_index, *args, **kwds)
 
-    # Check for indexing and reset if necessary
+    # Check for indexing
     func = self._func
-    if self.__index is not None:
-      func = func[self.__index]
-      self.__index = None
+    if _index is not None:
+      func = func[_index]
 
     # Non-callables
     if not self.__callable:
@@ -322,14 +321,11 @@ class Func:
     return func(*tuple(args), **kwds)
 
 #-------------------------------------------------------------------------------
-  def _call_scipy(self, *args, **kwds):
+  def _call_scipy(self, _index, *args, **kwds):
     """ Private call used by the wrapped Func interface for scipy objects.
     (see __call__ and __getitem__).
     """
-    index = 0
-    if self.__index is not None:
-      index = self.__index
-      self.__index = None
+    index = 0 if _index is None else _index
     if index < 4:
       if len(args) == 1 and isinstance(args[0], dict):
         args = [np.ravel(val) for val in args[0].values()]
@@ -352,7 +348,7 @@ class Func:
 
    assert not self.__ismulti or self.__isscipy, \
        "Cannot call with multiple func, use Func[]"
-   return self._call(*args, **kwds)
+   return self._call(None, *args, **kwds)
 
 #-------------------------------------------------------------------------------
   def __getitem__(self, spec=None):
@@ -361,8 +357,7 @@ class Func:
      return self._func
    assert self.__ismulti or self.__isscipy, \
      "Cannot index without single func, use Func()"
-   self.__index = spec
-   return self._call
+   return functools.partial(self._call, spec)
 
 #-------------------------------------------------------------------------------
   def __len__(self):
-- 
2.43.0


From 5603b09151d6139bc9bf9bfb358198b151729363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:25 +0000
Subject: [PATCH 14/40] fix: expressions evaluate without a working compiler

Compilation failures other than ImportError (compiler or OS errors) propagated
out of the constructor of an expression although lambdified evaluation needs
no compiler.
---
 probayes/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index 8e268b9..078ed40 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -156,7 +156,7 @@ class Expr:
       if key not in self._efun:
         try:
           self._efun.update({key: val(symbols, self._expr, *args, **kwds)})
-        except (TypeError, ImportError, AttributeError): # Bypass sympy bugs
+        except Exception: # Bypass sympy bugs and unavailable compilers
           pass
           # import pdb; pdb.set_trace()
     return self._efun
-- 
2.43.0


From c76f7352041a90055c943119514606db875b5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:41 +0000
Subject: [PATCH 15/40] fix: results do not depend on the string hash seed

Argument order of expressions, random draw order of fields and variable order
of sums and dependences followed the iteration order of sets of strings, so
the same seeded program gave different results in different processes.
---
 probayes/dependence.py | 5 +++--
 probayes/expr.py       | 2 +-
 probayes/pd_utils.py   | 5 ++---
 probayes/rf.py         | 6 +++---
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 8c60941..cddbe1d 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -236,9 +236,10 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
     if not self._stems:
       self._preds = None if not self._roots else self._roots
     else:
-      preds = set()
+      preds = []
       for leaf_var in self._leafs.varlist:
-        [preds.add(pred_var) for pred_var in self.predecessors(leaf_var)]
+        [preds.append(pred_var) for pred_var in self.predecessors(leaf_var)
+                                if pred_var not in preds]
       self._preds = self._field_cls(*tuple(preds))
 
     # Default functions for implicit architectures
diff --git a/probayes/expr.py b/probayes/expr.py
index 078ed40..fc15217 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -19,7 +19,7 @@ def collate_symbols(expr):
   assert isinstance(expr, sympy.Expr), \
     "Input type not Expr type but: {}".format(expr)
   symbols = collections.OrderedDict()
-  for putative_symbol in expr.free_symbols:
+  for putative_symbol in sorted(expr.free_symbols, key=str):
     symbol = putative_symbol
     while hasattr(symbol, 'symbol') and \
         hasattr(symbol, 'name'):
diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 03e78a9..37e4465 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -3,7 +3,7 @@
 
 #-------------------------------------------------------------------------------
 import collections
-import functools
+import itertools
 import os
 import numpy as np
 import h5py
@@ -426,8 +426,7 @@ def iterdict(dicts):
   """ Converts a tuple/list of dicts to a dict of lists """
   return collections.OrderedDict(
       {key: [_dict[key] for _dict in dicts if key in _dict]
-             for key in functools.reduce(set.union, [set(_dict.keys()) 
-                                                     for _dict in dicts])}
+             for key in dict.fromkeys(itertools.chain(*dicts))}
                                 )
 
 #-------------------------------------------------------------------------------
diff --git a/probayes/rf.py b/probayes/rf.py
index 0febda3..5ea7f35 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -570,7 +570,7 @@ class RF (Field, Prob):
     if type(iid) is bool and iid:
       iid = self._defiid
     if not kwds and len(args) == 1 and not isinstance(args[0], dict):
-      arg = {key: args[0] for key in self._keyset}
+      arg = {key: args[0] for key in self._keylist}
       args = arg,
     values = self.parse_args(*args, **kwds)
     dist_name = self.eval_dist_name(values)
@@ -583,7 +583,7 @@ class RF (Field, Prob):
     """ Returns a proposal distribution p(args[0]) for values """
     suffix = "'" if 'suffix' not in kwds else kwds.pop('suffix')
     if not kwds and len(args) == 1 and not isinstance(args[0], dict):
-      arg = {key: args[0] for key in self._keyset}
+      arg = {key: args[0] for key in self._keylist}
       args = arg,
     values = self.parse_args(*args, **kwds)
     dist_name = self.eval_dist_name(values, suffix)
@@ -617,7 +617,7 @@ class RF (Field, Prob):
 
     # Evaluate predecessor values
     if not isinstance(pred_vals, dict):
-      pred_vals = {key: pred_vals for key in self._keyset}
+      pred_vals = {key: pred_vals for key in self._keylist}
     pred_vals = self.parse_args(pred_vals, pass_all=True)
     dist_pred_name = self.eval_dist_name(pred_vals)
     pred_vals, pred_dims = self.evaluate(pred_vals)
-- 
2.43.0


From 03cfc36a32d1575eaa0543e862f58a9cc826f47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:07 +0000
Subject: [PATCH 16/40] fix: sympy samples follow Numpy's global random state

Sampling a sympy distribution drew from an unseeded generator, so a seeded
program was not reproducible.
---
 probayes/sympy_prob.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/probayes/sympy_prob.py b/probayes/sympy_prob.py
index 41752b0..9574aac 100644
--- a/probayes/sympy_prob.py
+++ b/probayes/sympy_prob.py
@@ -47,7 +47,13 @@ def sympy_obj_from_dist(dist, _recursive=False):
   return None
 
 #-------------------------------------------------------------------------------
-def sympy_sfun(distr, size=0, dtype=None, _sfunc=sympy.stats.sample):
+def sympy_sample(distr):
+  """ Samples distr with a generator seeded from Numpy's global random state """
+  seed = np.random.randint(0, np.iinfo(np.int32).max, size=4)
+  return sympy.stats.sample(distr, seed=np.random.default_rng(seed))
+
+#-------------------------------------------------------------------------------
+def sympy_sfun(distr, size=0, dtype=None, _sfunc=sympy_sample):
   """ Sampling function for Sympy distributions where:
 
   :param distr: Sympy stats distribution
-- 
2.43.0


From a5d332033bbe891a5e769690110196bc378ac29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:58 +0000
Subject: [PATCH 17/40] fix: interleaved samplers each keep their own Gibbs
 sweep

The position in the sweep through conditionals was held by the field and so
shared by every sampler of a process: two samplers advanced in turn each only
ever updated half of the variables.
---
 probayes/rf.py | 14 +++++++-------
 probayes/sp.py | 20 +++++++++++++++++++-
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 5ea7f35..68f7b49 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -47,7 +47,7 @@ class RF (Field, Prob):
 
   # Private
   __def_prob = None   # Flag to denote prob is defaulted
-  __cond_mod = None  # conditional RV index modulus
+  _cond_mod = None  # conditional RV index modulus
   __cond_cov = None  # conditional covariance matrix
 
 #-------------------------------------------------------------------------------
@@ -444,12 +444,12 @@ class RF (Field, Prob):
     inp = self._tfun.ret_inp() # ?
     keys = list(succ_vals.keys()) if not inp else list(inp.keys())
     if self._tsteps:
-      if self.__cond_mod is None:
-        self.__cond_mod = 0
-      keys = keys[self.__cond_mod:(self.__cond_mod+self._tsteps)]
-      self.__cond_mod += self._tsteps
-      if self.__cond_mod >= len(succ_vals):
-        self.__cond_mod = 0
+      if self._cond_mod is None:
+        self._cond_mod = 0
+      keys = keys[self._cond_mod:(self._cond_mod+self._tsteps)]
+      self._cond_mod += self._tsteps
+      if self._cond_mod >= len(succ_vals):
+        self._cond_mod = 0
 
     # Handle unspecified input key handling separately
     if not inp:
diff --git a/probayes/sp.py b/probayes/sp.py
index 02b0666..c442013 100644
--- a/probayes/sp.py
+++ b/probayes/sp.py
@@ -27,6 +27,7 @@ class SP (SD):
   __samplers = None  # List of samplers
   __counter = None   # Step counter
   __last = None      # Last argument ordereddict
+  __phase = None     # Conditional sampling phase of each sampler
 
 #-------------------------------------------------------------------------------
   def __init__(self, *args, **kwds):
@@ -118,6 +119,8 @@ class SP (SD):
       self.__counter = collections.Counter()
     if self.__last is None:
       self.__last = collections.OrderedDict()
+    if self.__phase is None:
+      self.__phase = collections.OrderedDict()
     if sampler_id is None:
       return
     sampler = self.get_sampler(sampler_id)
@@ -126,6 +129,7 @@ class SP (SD):
       self.__last[sampler] = None
     elif reset_last:
       self.__last[sampler] = None
+      self.__phase[sampler] = None
     return self.__samplers, self.__counter, self.__last
 
 #-------------------------------------------------------------------------------
@@ -221,8 +225,21 @@ class SP (SD):
 #-------------------------------------------------------------------------------
   def next(self, sampler_id, *args, **kwds):
 
-    # Reset counters
+    # Samplers take turns so each must resume its own conditional sampling phase
     sampler = self.get_sampler(sampler_id)
+    step_obj = self if self._prop_obj is None else self._prop_obj
+    cond_mod, step_obj._cond_mod = step_obj._cond_mod, self.__phase[sampler]
+    try:
+      sample = self._next(sampler, *args, **kwds)
+      self.__phase[sampler] = step_obj._cond_mod
+    finally:
+      step_obj._cond_mod = cond_mod
+    return sample
+
+#-------------------------------------------------------------------------------
+  def _next(self, sampler, *args, **kwds):
+
+    # Reset counters
     self.__counter[sampler] += 1
     last = self.__last[sampler]
     no_proposal = self._tran is None and self._tfun is None and \
@@ -276,6 +293,7 @@ class SP (SD):
     self.__samplers.append(sampler)
     self.__counter[sampler] = 0
     self.__last[sampler] = None
+    self.__phase[sampler] = None
     return sampler
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From cead252d407e3428e3c01fab42e45a5b12fc9130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:58 +0000
Subject: [PATCH 18/40] fix: a step that raises is not counted as taken

---
 probayes/sp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/probayes/sp.py b/probayes/sp.py
index c442013..c80dae7 100644
--- a/probayes/sp.py
+++ b/probayes/sp.py
@@ -232,6 +232,7 @@ class SP (SD):
     try:
       sample = self._next(sampler, *args, **kwds)
       self.__phase[sampler] = step_obj._cond_mod
+      self.__counter[sampler] += 1
     finally:
       step_obj._cond_mod = cond_mod
     return sample
@@ -239,8 +240,6 @@ class SP (SD):
 #-------------------------------------------------------------------------------
   def _next(self, sampler, *args, **kwds):
 
-    # Reset counters
-    self.__counter[sampler] += 1
     last = self.__last[sampler]
     no_proposal = self._tran is None and self._tfun is None and \
                   not self._unit_tran and self._prop is None
-- 
2.43.0


From 71f99d44763736c6b8d1c3b57bc9689df332ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:41 +0000
Subject: [PATCH 19/40] fix: a spherical delta drawn at the origin does not
 turn the chain into NaN

---
 probayes/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/field.py b/probayes/field.py
index ba2ee06..af9d0b9 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -514,6 +514,8 @@ class Field (NX_UNDIRECTED_GRAPH):
     if self._delta_kwds['scale']:
       delta *= rss
     deltas = np.random.uniform(-delta, delta, size=len(spherise))
+    if not np.any(deltas): # a null vector has no direction to normalise
+      deltas[:] = delta
     rss_deltas = real_sqrt(np.sum(deltas ** 2.))
     deltas = (deltas * delta) / rss_deltas
     delta_dict = collections.OrderedDict()
-- 
2.43.0


From 1750af36406ea3d3250d09d3ac03d9355bedf898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:22 +0000
Subject: [PATCH 20/40] fix: multivariate normal densities take the variables
 in the order of the field

The components were passed to scipy in reverse (or, with three variables,
permuted) order, or in the order in which the caller named the values, so the
density was that of another point whenever the variables are not exchangeable.
---
 probayes/prob.py | 5 +----
 probayes/rf.py   | 2 ++
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 3108f2a..3f94540 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -351,10 +351,7 @@ class Prob (Expression, SympyProb):
           if len(vals) == 1:
             vals = np.array(vals)
           else:
-            vals = vals[::-1]
-            if len(vals) > 2:
-              vals = vals[1:] + [vals[0]]
-            vals = np.stack(np.meshgrid(*tuple(vals)), axis=-1)
+            vals = np.stack(np.broadcast_arrays(*vals), axis=-1)
           prob = prob(vals)
         else:
           prob = prob(*args)
diff --git a/probayes/rf.py b/probayes/rf.py
index 68f7b49..e17656f 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -334,6 +334,8 @@ class RF (Field, Prob):
     # Pass-dims is to replaced when passing Distributions()
     if self._passdims:
       return super().eval_prob(values, dims=dims)
+    if self.issmvar: # multivariates take variables in the order of the field
+      values = collections.OrderedDict((key, values[key]) for key in self._keylist)
     return super().eval_prob(values)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 9a363b1fd11654bdbdc314430751fd52ecf1b22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:06 +0000
Subject: [PATCH 21/40] fix: a Gibbs sweep follows the order of the field, not
 of the initial values

The first step of a sweep took the variables in the order in which the caller
named the initial values and later steps in the order of the field: variables
were updated twice or skipped, and the conditional normal of the first step was
that of another variable.
---
 probayes/rf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index e17656f..54d382f 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -437,7 +437,9 @@ class RF (Field, Prob):
         return self._tfun(values, *args, **kwds)
 
     # Support variable sampling one-or-more at-a-time
-    succ_vals = collections.OrderedDict(values)
+    succ_vals = collections.OrderedDict(
+        (key, values[key]) for key in self._keylist if key in values)
+    succ_vals.update(values)
 
     # For conditional functions, iterate through keys
     assert isinstance(self._tfun, CF), "Callable conditionals must be CF type"
-- 
2.43.0


From d025278933e5c7014ed475951e29851e74cd64a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:16 +0000
Subject: [PATCH 22/40] fix: products of independent variables are returned in
 the requested scale

A requested log scale is complex zero, which is falsy, and was replaced by the
scale of the variables; and the final conversion was given the list of scales.
---
 probayes/pscales.py  | 2 +-
 probayes/rf_utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index b60c89b..ee8ea45 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -211,7 +211,7 @@ def prod_rule(*args, **kwds):
         probs[i] = exp_logp(probs[i])
   prob = _apply_prod(probs)
   if use_logp != iscomplex(pscale):
-    prob = rescale(prob, ppscale, pscales)
+    prob = rescale(prob, ppscale, pscale)
 
   return prob, pscale
 
diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 484e4eb..1737a1d 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -13,7 +13,7 @@ def rv_prod_rule(*args, rvs, pscale=None):
   """
   values = args[0]
   pscales = [rv.pscale for rv in rvs]
-  pscale = pscale or prod_pscale(pscales)
+  pscale = prod_pscale(pscales) if pscale is None else pscale
   use_logs = iscomplex(pscale)
   probs = [rv.eval_prob(values[rv.name]) for rv in rvs]
   prob, pscale = prod_rule(*tuple(probs),
-- 
2.43.0


From c392d9043788f558aff629a0b53738f5b0673fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:33 +0000
Subject: [PATCH 23/40] fix: dictionary deltas of a field reach its variables

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index af9d0b9..5c749da 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -266,7 +266,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     # Handle deltas and dictionaries
     if isinstance(self._delta, dict):
       self._delta = self._delta_type(**self._delta)
-    if isinstance(delta, self._delta_type):
+    if isinstance(self._delta, self._delta_type):
       assert not args, \
         "Optional args prohibited for dict/delta instance inputs"
       for i, var in enumerate(self._varlist):
-- 
2.43.0


From b36064918b46f08656b89727afce8b1339a377e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:48 +0000
Subject: [PATCH 24/40] fix: deltas correlated by a matrix keep scalar values
 scalar

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 54d382f..af918b0 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -346,7 +346,7 @@ class RF (Field, Prob):
     if self._tfun is None or self._tfun.isscalar:
       return delta
     elif not self._tfun.callable:
-      delta = self._tfun().dot(np.array(delta, dtype=float))
+      delta = self._tfun().dot(np.array(delta, dtype=float).ravel())
       return self._delta_type(*delta)
     else:
       delta = self._tfun(delta)
-- 
2.43.0


From 66f1c21275371a6c5c4707e7a9d5e8f1953cc31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:41 +0000
Subject: [PATCH 25/40] fix: a delta of zero is not replaced by the default
 delta

---
 probayes/field.py    | 2 +-
 probayes/variable.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 5c749da..9c6f019 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -534,7 +534,7 @@ class Field (NX_UNDIRECTED_GRAPH):
 
 #-------------------------------------------------------------------------------
   def apply_delta(self, values, delta=None):
-    delta = delta or self._delta
+    delta = self._delta if delta is None else delta
     if delta is None:
       return values
     if not isinstance(delta, self._delta_type):
diff --git a/probayes/variable.py b/probayes/variable.py
index 27144b6..1a1f135 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -606,7 +606,7 @@ class Variable (Icon):
 
     If delta is not entered, then the default set by Variable.set_delta() is used.
     """
-    delta = delta or self._delta
+    delta = self._delta if delta is None else delta
     if delta is None:
       return None
     if isinstance(delta, Expression):
@@ -660,7 +660,7 @@ class Variable (Icon):
       values = values[self.name] 
 
     # Call eval_delta() if values is a list and return values if delta is None
-    delta = delta or self._delta
+    delta = self._delta if delta is None else delta
     if isinstance(delta, Expression):
       if delta.ret_callable():
         return delta(values)
-- 
2.43.0


From b969c17c007087315aa62a67ee7560536bdbf9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:24 +0000
Subject: [PATCH 26/40] fix: random samples of a discrete variable reach all of
 its set

---
 probayes/variable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 1a1f135..849c687 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -567,7 +567,9 @@ class Variable (Icon):
           if number > 0:
             indices = np.arange(number, dtype=int) % self._length
           else:
-            indices = np.random.permutation(-number) % self._length
+            perms = [np.random.permutation(self._length) 
+                     for _ in range(0, -number, self._length)]
+            indices = np.concatenate(perms)[:-number]
           values = values[indices]
         return Distribution(self._name, {self.name: values})
        
-- 
2.43.0


From 5f2b48df931724bb0b04edf202a84f2b02c3d2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:24 +0000
Subject: [PATCH 27/40] fix: truth values keep their probabilities on a log
 scale

---
 probayes/rv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 96ad54c..0740e8b 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -145,8 +145,11 @@ class RV (Variable, Prob):
     # Reassign non-0.5 Bernoulli probabilities to a formal distribution
     if self._vtype in VTYPES[bool] and self.isscalar:
       prob = float(self._prob)
+      if self._logp:
+        prob = rescale(prob, self._pscale, 1.)
       if not np.isclose(prob, 0.5):
-        super().set_prob(bernoulli_prob(self.icon, bias=prob))
+        expr = bernoulli_prob(self.icon, bias=prob)
+        super().set_prob(sympy.log(expr) if self._logp else expr)
         super().set_sfun(bernoulli_sfun, bias=prob)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From f3e12d3c195ecf755b2bdb20f053cc1afd6f4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:56 +0000
Subject: [PATCH 28/40] fix: variables sampled by name follow their declared
 distribution

---
 probayes/rv.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/probayes/rv.py b/probayes/rv.py
index 0740e8b..6ee9579 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -6,6 +6,7 @@ import warnings
 import numpy as np
 import sympy
 from probayes.variable import Variable, DEFAULT_VNAME
+from probayes.variable_utils import parse_as_str_dict
 from probayes.prob import Prob
 from probayes.vtypes import uniform, VTYPES, isscalar, \
                         isunitset, isunitsetint, isunitsetfloat, issingleton
@@ -279,6 +280,10 @@ class RV (Variable, Prob):
 
     :return: a NumPy array of the values (see Variable.evaluate()):
     """
+    if isinstance(values, dict):
+      value = parse_as_str_dict(values)[self.name]
+      if isunitsetint(value) and list(value)[0] <= 0: # if random sampling
+        values = value
     use_pfun = use_pfun and self._pfun is not None and isunitsetint(values)
 
     # If not using pfun while random sampling, we use sfun for booleans
-- 
2.43.0


From 79794ff6c245dcab14bb011b2929c3a52f5db182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:56 +0000
Subject: [PATCH 29/40] fix: expressions accept Numpy truth values

---
 probayes/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index fc15217..946bee0 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -186,7 +186,7 @@ class Expr:
     isarray = [None] * len(keys)
     vec_dim = [None] * len(keys)
     for i, key in enumerate(keys):
-      if isinstance(values[key], bool): # Sympy doesn't like bool types
+      if isinstance(values[key], (bool, np.bool_)): # Sympy doesn't like bool types
         values[key] = int(values[key])
       ekeys[i] = self._symbols[key]
       evalues[i] = values[key]
-- 
2.43.0


From 3108bbcb2abe5e1641f518e29487fe4dbf4938f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:59 +0000
Subject: [PATCH 30/40] fix: the fallback of uncompiled expressions evaluates
 arrays elementwise

The modules of lambdify were passed as separate arguments, so that it always
failed and arrays were evaluated over the grid of all their combinations.
---
 probayes/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index 946bee0..ee4b734 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -10,7 +10,7 @@ from probayes.variable_utils import parse_as_str_dict
 DEFAULT_EFUNS = [
                   ({np.ndarray: ufuncify}, [], {'backend':'numpy'})
                   ,
-                  ({np.ndarray: sympy.lambdify}, ['numpy', 'scipy'], {} )
+                  ({np.ndarray: sympy.lambdify}, [['numpy', 'scipy']], {} )
                 ]
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From aeee9b5f21fe2e1d79c3b61ea0ef39dd260c4530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:10 +0000
Subject: [PATCH 31/40] fix: conditionalising keeps the order of the
 distribution's variables

---
 probayes/pd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/pd.py b/probayes/pd.py
index 5121387..729ae90 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -220,6 +220,7 @@ class PD (Distribution):
     for key in keys:
       assert key in self._marg.keys(), \
         "Key {} not marginal in distribution {}".format(key, self.name)
+    keys = [key for key in self._keylist if key in keys]
     dims = collections.OrderedDict()
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
-- 
2.43.0


From e5edcde8a4b3590610524fbe16dd6468b188756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:12 +0000
Subject: [PATCH 32/40] fix: what is serialised does not share arrays with the
 distribution

---
 probayes/distribution.py | 5 +++--
 probayes/pd.py           | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 990968c..9d8a0c2 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -3,6 +3,7 @@
 #-------------------------------------------------------------------------------
 import numpy as np
 import collections
+import copy
 from probayes.vtypes import issingleton
 from probayes.named_dict import NamedDict
 
@@ -285,8 +286,8 @@ class Distribution (NamedDict):
 #-------------------------------------------------------------------------------
   def serialise(self):
     short_name = self.short_name
-    serialised = {short_name: {key:val for key, val in self.items()}}
-    serialised[short_name].update({'attrs': self.dims})
+    serialised = {short_name: {key: copy.deepcopy(val) for key, val in self.items()}}
+    serialised[short_name].update({'attrs': copy.copy(self.dims)})
     return serialised
 
 #-------------------------------------------------------------------------------
diff --git a/probayes/pd.py b/probayes/pd.py
index 729ae90..f7b3182 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -2,6 +2,7 @@
 
 #-------------------------------------------------------------------------------
 import collections
+import copy
 import numpy as np
 from probayes.named_dict import NamedDict
 from probayes.pd_utils import str_margcond, margcond_str, product, summate, \
@@ -699,7 +700,7 @@ class PD (Distribution):
   def serialise(self):
     serialised = super().serialise()
     short_name = self.short_name
-    serialised[short_name].update({'prob': self._prob})
+    serialised[short_name].update({'prob': copy.deepcopy(self._prob)})
     serialised[short_name].update({'pscale': self.pscale})
     return serialised
 
-- 
2.43.0


From aedde6e018d34442d3c7e6445e7fbcf6ac23397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:17 +0000
Subject: [PATCH 33/40] fix: conditional samples are clipped to the exact
 limits

---
 probayes/cond_cov.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/probayes/cond_cov.py b/probayes/cond_cov.py
index 720f444..e1dddfa 100644
--- a/probayes/cond_cov.py
+++ b/probayes/cond_cov.py
@@ -16,13 +16,15 @@ class CondCov:
   _stdv = None # Conditional standard deviations
   _coef = None # Regression coefficients
   _lims = None  # Recentered limits (Nx2 array)
+  _clip = None  # Limits as given (Nx2 array)
 
 #-------------------------------------------------------------------------------
   def __init__(self, mean, cov, lims):
     self._mean = np.atleast_1d(mean)
     self._cov = np.atleast_2d(cov)
     self._inv = np.linalg.inv(self._cov)
-    self._lims = np.atleast_2d(lims) - np.expand_dims(self._mean, -1)
+    self._clip = np.atleast_2d(lims)
+    self._lims = self._clip - np.expand_dims(self._mean, -1)
     self._n = len(self._mean)
     assert len(self._cov) == self._n, \
         "Means and covariance matrix incommensurate"
@@ -58,7 +60,7 @@ class CondCov:
     lims = scipy.stats.norm.cdf(self._lims[idx], loc=offs, scale=stdv)
     cdf = uniform(lims[0], lims[1], number)
     vals = scipy.stats.norm.ppf(cdf, loc=mean, scale=stdv)
-    vals = np.clip(vals, *(self._lims[idx] + self._mean[idx]))
+    vals = np.clip(vals, *self._clip[idx])
     if not cond_pdf:
       return vals
     return vals, scipy.stats.norm.pdf(vals, loc=mean, scale=stdv)
-- 
2.43.0


From 907f30511141687512c761035082c06c3ece42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 34/40] fix: several transitions can be sampled at once from a
 matrix

---
 probayes/rv_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index b2a4d97..cd57949 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -72,7 +72,9 @@ def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
     succ_cmf = np.atleast_1d(succ_cmf)
   last_idx = np.flatnonzero(prob[:, pred_idx])[-1] # cmf[-1] may round below 1.
   succ_idx = np.maximum(0, np.minimum(last_idx, np.digitize(succ_cmf, cmf)))
-  return vset[succ_idx], pred_idx, succ_idx
+  if isscalar(succ_idx):
+    return vset[succ_idx], pred_idx, succ_idx
+  return np.array(vset)[succ_idx], pred_idx, succ_idx
 
 #-------------------------------------------------------------------------------
 def lookup_square_matrix(col_vals, row_vals, sq_matrix, 
-- 
2.43.0


From 54c88ecddbc9c7064b1bd6764625f9db8efd48fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:33 +0000
Subject: [PATCH 35/40] fix: a variable keeps its own copy of its set

---
 probayes/variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/variable.py b/probayes/variable.py
index 849c687..4426457 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -188,6 +188,7 @@ class Variable (Icon):
           "Unrecognised vset specification: {}".format(vset)
 
     # At this point, vset can only be a list, but may contain tuples
+    vset = list(vset) # neither the default nor the caller's list may be altered
     vtype = self._vtype
     for i, value in enumerate(vset):
       if isinstance(value, tuple):
-- 
2.43.0


From 0be3dea04e878b4d15f1ceb7da90b32c28696db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:07 +0000
Subject: [PATCH 36/40] fix: a process can be called with an array

Calling a process with an array of values evaluated the truth of the array
(deciding whether it is a collection of samples), which raises.
---
 probayes/sp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/sp.py b/probayes/sp.py
index c80dae7..baba325 100644
--- a/probayes/sp.py
+++ b/probayes/sp.py
@@ -139,7 +139,7 @@ class SP (SD):
 
     # Summating distributions is straightforward
     samples = None if not len(args) else args[0]
-    if samples and isinstance(samples, (list, tuple, collections.deque)) \
+    if isinstance(samples, (list, tuple, collections.deque)) \
         and len(samples) and isinstance(samples[0], PD):
       samples = list(samples)
       for sample in samples[1:]:
@@ -154,7 +154,7 @@ class SP (SD):
       return dist.conditionalise(self._leafs.keyset)
 
     # If empty call or dictionary arguments, pass to SD
-    if not samples or len(kwds) or \
+    if len(kwds) or \
         not isinstance(samples, (list, tuple, collections.deque)):
       return super().__call__(*args, **kwds)
     if not len(samples):
-- 
2.43.0


From eee5e2425f13c693987b6aa0bff047927490c438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:54 +0000
Subject: [PATCH 37/40] fix: symbols with assumptions are evaluated at scalars

Values were substituted by name, which stands for a symbol without assumptions.
---
 probayes/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index ee4b734..e67a7aa 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -207,7 +207,7 @@ class Expr:
     # If supported efun found or not array, then use it
     if not(any(isarray)) or np.ndarray in self._efun:
       efun = self._efun[etype]
-      vals = efun(*evalues) if etype else efun(values)
+      vals = efun(*evalues) if etype else efun(dict(zip(ekeys, evalues)))
       if isinstance(vals, np.ndarray):
         return vals
       elif isinstance(vals, sympy.Integer):
-- 
2.43.0


From b002af8cc1b916b9769342030bf9dcdcc68afc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:10 +0000
Subject: [PATCH 38/40] fix: arrays are evaluated elementwise without array
 functions

Where translation of an expression to array functions fails, arrays were
combined on a grid whose axes were assigned to the wrong symbols.
---
 probayes/expr.py | 40 ++++++++--------------------------------
 1 file changed, 8 insertions(+), 32 deletions(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index e67a7aa..c4dd263 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -184,7 +184,6 @@ class Expr:
     evalues = [None] * len(keys)
     ekeys = [None] * len(keys)
     isarray = [None] * len(keys)
-    vec_dim = [None] * len(keys)
     for i, key in enumerate(keys):
       if isinstance(values[key], (bool, np.bool_)): # Sympy doesn't like bool types
         values[key] = int(values[key])
@@ -192,11 +191,6 @@ class Expr:
       evalues[i] = values[key]
       _etype = type(evalues[i])
       isarray[i] = _etype is np.ndarray
-      if isarray[i]:
-        non_sing = np.array(evalues[i].shape) > 1
-        non_sing_sum = non_sing.sum()
-        if non_sing_sum > 0:
-          vec_dim[i] = int(np.nonzero(non_sing)[0][0])
       if etype is None: 
         if _etype in self._efun.keys():
           etype = _etype
@@ -224,36 +218,18 @@ class Expr:
     if any(isarray) and np.ndarray not in self._efun:
       efun = self._efun[None]
 
-      vec_dims = np.array([dim for dim in vec_dim if dim is not None])
-      # Is a sort required (meshgrid seems to prefer reverse order)?
-      if len(vec_dims) > 1 and np.max(np.diff(vec_dims)) > 0:
-        values = sort_ordered_dict(values, vec_dim, reverse=True)
-        evalues = list(values.values())
-      mesh_values = [val for i, val in enumerate(evalues) if isarray[i]]
-      mesh_grid = np.meshgrid(*tuple(mesh_values), copy=False)
-      revalues = collections.OrderedDict()
-      shape = None
-      mesh_idx = -1
-      for i, key in enumerate(keys):
-        if isarray[i]:
-          mesh_idx += 1
-          shape = mesh_grid[mesh_idx].shape
-          revalues.update({key: np.ravel(mesh_grid[mesh_idx])})
-        else:
-          revalues.update({key: values[key]})
-      size = int(np.prod(shape))
-      vals = dict(values)
-      reval = [None] * size
-      for k in range(size):
-        for i, key in enumerate(keys):
-          if isarray[i]:
-            vals.update({key: revalues[key][k]})
-        val = efun(vals)
+      # Broadcast arrays as array evaluation functions do
+      broadcast = np.broadcast(*evalues)
+      reval = [None] * broadcast.size
+      for k, vals in enumerate(broadcast):
+        vals = [int(val) if isinstance(val, (bool, np.bool_)) else val 
+                for val in vals]
+        val = efun(dict(zip(ekeys, vals)))
         if isinstance(val, sympy.Integer):
           reval[k] = int(val)
         else:
           reval[k] = float(val)
-      return np.array(reval).reshape(shape)
+      return np.array(reval).reshape(broadcast.shape)
 
     # Otherwise rely on evaluation function
 
-- 
2.43.0


From 3628d457a6e9950e0b82be756137b2572aba2ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 39/40] fix: saving to a symbolic link keeps the link

---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 37e4465..4d9718a 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -481,7 +481,7 @@ def write_serialised(path, serialised, aux_dict={}):
     return _write_hdf(path, serialised, aux_dict)
 
   # Write elsewhere then rename so that path never holds an incomplete save
-  path = os.fsdecode(path)
+  path = os.path.realpath(os.fsdecode(path)) # renaming would replace a link
   partial = path + '.partial'
   try:
     _write_hdf(partial, serialised, aux_dict)
-- 
2.43.0


From 5c4aa42c4f05bfd09d275428b62ab3d0f11a3a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:47 +0000
Subject: [PATCH 40/40] fix: overwriting a saved file keeps its permissions

---
 probayes/pd_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 4d9718a..29ea59e 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -5,6 +5,7 @@
 import collections
 import itertools
 import os
+import shutil
 import numpy as np
 import h5py
 from probayes.vtypes import isscalar, issingleton, isunitsetint
@@ -485,6 +486,8 @@ def write_serialised(path, serialised, aux_dict={}):
   partial = path + '.partial'
   try:
     _write_hdf(partial, serialised, aux_dict)
+    if os.path.exists(path):
+      shutil.copymode(path, partial)
     os.replace(partial, path)
   except BaseException:
     if os.path.exists(partial):
-- 
2.43.0

