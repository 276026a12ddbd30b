From 78f4ac128befe360e0616d8ea92b1acbcee283cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 01/74] fix: make memoization keys unambiguous

The key used for a default distance was the same as for distance=0,
positional and keyword arguments were treated differently, values were
truncated by their string representation, and parameters were joined
without a delimiter, so different requests could share a cached result.
---
 src/naima/model_utils.py | 46 ++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index 634b875..faf2ff3 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -1,15 +1,36 @@
 # -*- coding: utf-8 -*-
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
 import hashlib
+import inspect
 import warnings
 
 import numpy as np
 from astropy import units as u
 
 
+def _token(value):
+    """Unambiguous, full-precision representation of a value for cache keys"""
+    if isinstance(value, u.Quantity):
+        return "Q({0},{1})".format(value.unit.to_string(), _token(value.value))
+    if isinstance(value, (np.ndarray, np.generic)):
+        arr = np.asarray(value)
+        if arr.dtype != object:
+            digest = hashlib.sha256(arr.tobytes()).hexdigest()
+            return "A({0},{1},{2})".format(arr.dtype.str, arr.shape, digest)
+        value = arr.tolist()
+    if isinstance(value, dict):
+        items = ("{0}:{1}".format(_token(k), _token(value[k])) for k in value)
+        return "D({0})".format(",".join(items))
+    if isinstance(value, (list, tuple)):
+        return "L({0})".format(",".join(_token(v) for v in value))
+    return "{0}({1!r})".format(type(value).__name__, value)
+
+
 def memoize(func):
     """Cache decorator for functions inside model classes"""
 
+    sig = inspect.signature(func)
+
     def model(cls, energy, *args, **kwargs):
         try:
             memoize = cls._memoize
@@ -28,33 +49,26 @@ def memoize(func):
                         getattr(np, "VisibleDeprecationWarning", None),
                     )
                     energy = u.Quantity(energy["energy"])
-            except (TypeError, ValueError, IndexError):
+            except (KeyError, TypeError, ValueError, IndexError):
                 pass
 
-            try:
-                # tostring is 10 times faster than str(array).encode()
-                bstr = energy.value.tobytes()
-            except AttributeError:
-                # scalar Quantity
-                bstr = str(energy.value).encode()
-
-            data = [hashlib.sha256(bstr).hexdigest()]
-
-            data.append(energy.unit.to_string())
-            data.append(str(kwargs.get("distance", 0)))
+            # call arguments, with positional, keyword and default values all
+            # identified by the name of the argument
+            bound = sig.bind(cls, energy, *args, **kwargs)
+            bound.apply_defaults()
+            data = [_token(list(bound.arguments.items())[1:])]
 
-            if args:
-                data.append(str(args))
             if hasattr(cls, "particle_distribution"):
                 models = [cls, cls.particle_distribution]
             else:
                 models = [cls]
             for model in models:
+                data.append(type(model).__name__)
                 if hasattr(model, "param_names"):
                     for par in model.param_names:
-                        data.append(str(getattr(model, par)))
+                        data.append(_token([par, getattr(model, par)]))
 
-            token = "".join(data)
+            token = ";".join(data)
             digest = hashlib.sha256(token.encode()).hexdigest()
 
             if digest in cache:
-- 
2.43.0


From 7b91a42a3d4a99117d305b3ecd78a54fadf97627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 02/74] fix: do not let callers modify memoized results in
 place

---
 src/naima/model_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index faf2ff3..d7b3c0a 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
+import copy
 import hashlib
 import inspect
 import warnings
@@ -72,7 +73,7 @@ def memoize(func):
             digest = hashlib.sha256(token.encode()).hexdigest()
 
             if digest in cache:
-                return cache[digest]
+                return copy.copy(cache[digest])
 
         result = func(cls, energy, *args, **kwargs)
 
@@ -83,7 +84,8 @@ def memoize(func):
                 cache.pop(key, None)
             # save last result to cache
             queue.append(digest)
-            cache[digest] = result
+            # and do not share it with the caller, who may modify it in place
+            cache[digest] = copy.copy(result)
 
         return result
 
-- 
2.43.0


From cae244eec80fd1d38055a3edd7da1bbc9a853959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 03/74] fix: do not memoize results for particle distributions
 without parameter names

The cache could not tell apart different functions or TableModel
instances, nor notice a change of the TableModel amplitude, and returned
the result of a previous particle distribution.
---
 src/naima/model_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index d7b3c0a..ecbe689 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -40,6 +40,13 @@ def memoize(func):
         except AttributeError:
             memoize = False
 
+        # Particle distributions that do not list their parameters (functions,
+        # TableModel) cannot be identified by them in the cache key
+        if hasattr(cls, "particle_distribution") and not hasattr(
+            cls.particle_distribution, "param_names"
+        ):
+            memoize = False
+
         if memoize:
             # Allow for dicts or tables with energy column, Quantity array or
             # Quantity scalar
-- 
2.43.0


From a9583d0dcf51c9fe206bb0a866cc3530e28ba97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 04/74] fix: compute the requested seed contribution in
 InverseCompton.flux

The contribution was read from the last spectrum computed by the
instance, which is stale when the total flux is served from the cache.
---
 src/naima/radiative.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 3db562e..ada822a 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -754,7 +754,11 @@ class InverseCompton(BaseElectron):
                 dfac = 1
                 out_unit = "1/(s eV)"
 
-            model = (self.specic[seed] / dfac).to(out_unit)
+            # compute the contribution instead of reading it from the last
+            # spectrum computed, which may have been a different one
+            seed_name = list(self.seed_photon_fields.keys())[seed]
+            outspecene = _validate_ene(photon_energy)
+            model = (self._calc_specic(seed_name, outspecene) / dfac).to(out_unit)
 
         return model
 
-- 
2.43.0


From c189356bac0512848ff4ac8da2c4887873b7b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 05/74] fix: reject out of range seed numbers in
 InverseCompton.flux

---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index ada822a..ed3e869 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -739,7 +739,7 @@ class InverseCompton(BaseElectron):
                     )
                 else:
                     seed = list(self.seed_photon_fields.keys()).index(seed)
-            elif seed > len(self.seed_photon_fields):
+            elif seed >= len(self.seed_photon_fields):
                 raise ValueError(
                     "Provided seed photon field number is larger"
                     " than the number of seed photon fields defined in the"
-- 
2.43.0


From 8f75eb1476ffd5d50dea2faa04bae34bf5009eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 06/74] fix: accept scalar photon energies in all radiative
 models

PionDecay, PionDecayKelner06 and InverseCompton failed for the documented
scalar Quantity input.
---
 src/naima/radiative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index ed3e869..468a74c 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -99,7 +99,7 @@ class BaseRadiative:
             luminosity will be returned. Default is 1 kpc.
         """
 
-        spec = self._spectrum(photon_energy)
+        spec = self._spectrum(np.atleast_1d(_validate_ene(photon_energy)))
 
         if distance != 0:
             distance = validate_scalar("distance", distance, physical_type="length")
@@ -757,7 +757,7 @@ class InverseCompton(BaseElectron):
             # compute the contribution instead of reading it from the last
             # spectrum computed, which may have been a different one
             seed_name = list(self.seed_photon_fields.keys())[seed]
-            outspecene = _validate_ene(photon_energy)
+            outspecene = np.atleast_1d(_validate_ene(photon_energy))
             model = (self._calc_specic(seed_name, outspecene) / dfac).to(out_unit)
 
         return model
-- 
2.43.0


From 8be4f355e02265cd613ef752ed938ea4abe6c041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 07/74] fix: accept tables and dicts in InverseCompton.sed with
 a seed argument

---
 src/naima/radiative.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 468a74c..f25b21f 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -779,6 +779,8 @@ class InverseCompton(BaseElectron):
             is required. If set to None it will return the sum of all
             contributions (default).
         """
+        photon_energy = _validate_ene(photon_energy)
+
         sed = super().sed(photon_energy, distance=distance)
 
         if seed is not None:
-- 
2.43.0


From aea7e73aeabada7302ce05ad886f3393e81244f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 08/74] fix: do not share the cache between PionDecayKelner06
 instances

---
 src/naima/radiative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index f25b21f..567523d 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1580,8 +1580,6 @@ class PionDecayKelner06(BaseRadiative):
     # This class doesn't inherit from BaseProton
     param_names = ["nh", "Etrans"]
     _memoize = True
-    _cache = {}
-    _queue = []
 
     def __init__(
         self, particle_distribution, nh=1.0 / u.cm**3, Etrans=0.1 * u.TeV, **kwargs
@@ -1591,6 +1589,8 @@ class PionDecayKelner06(BaseRadiative):
         self.Etrans = validate_scalar(
             "Etrans", Etrans, domain="positive", physical_type="energy"
         )
+        self._cache = {}
+        self._queue = []
 
         self.__dict__.update(**kwargs)
 
-- 
2.43.0


From 6b3a72f70af3e9d09073680131937c1c1b15f129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 09/74] fix: normalize the PionDecayKelner06 delta
 approximation consistently

The flux below Etrans was only matched to the full calculation when the
same array included energies above Etrans, so the flux at a given energy
depended on the other energies it was computed with.
---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 567523d..7f66f27 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1753,7 +1753,7 @@ class PionDecayKelner06(BaseRadiative):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
             self.nhat = 1.0  # initial value, works for index~2.1
-            if np.any(outspecene < self.Etrans) and np.any(outspecene >= self.Etrans):
+            if np.any(outspecene < self.Etrans):
                 # compute value of nhat so that delta functional matches
                 # accurate calculation at 0.1TeV
                 full = self._calc_specpp_hiE(self.Etrans)
-- 
2.43.0


From ab26efe314c3e9ccfc83dfebe715f7a83bfac74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 10/74] fix: do not store PionDecay work values in class-level
 tables

They are shared between all instances, which could mix up their values
when used from different threads.
---
 src/naima/radiative.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 7f66f27..5c61fad 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1407,14 +1407,14 @@ class PionDecay(BaseProton):
         idx = np.where((Tp >= self._Tth) * (Tp <= 1.0))
         if idx[0].size > 0:
             kappa = self._kappa(Tp[idx])
-            mp = self._F_mp["ExpData"]
+            mp = list(self._F_mp["ExpData"])
             mp[2] = kappa
             F[idx] = self._F_func(Tp[idx], Egamma, mp)
 
         # 1GeV < Tp < 4 GeV: Geant4 model 0
         idx = np.where((Tp > 1.0) * (Tp <= 4.0))
         if idx[0].size > 0:
-            mp = self._F_mp["Geant4_0"]
+            mp = list(self._F_mp["Geant4_0"])
             mu = self._mu(Tp[idx])
             mp[2] = mu + 2.45
             mp[3] = mu + 1.45
@@ -1423,7 +1423,7 @@ class PionDecay(BaseProton):
         # 4 GeV < Tp < 20 GeV
         idx = np.where((Tp > 4.0) * (Tp <= 20.0))
         if idx[0].size > 0:
-            mp = self._F_mp["Geant4_1"]
+            mp = list(self._F_mp["Geant4_1"])
             mu = self._mu(Tp[idx])
             mp[2] = 1.5 * mu + 4.95
             mp[3] = mu + 1.50
-- 
2.43.0


From cc4e95e94200d5c5ff0355f958e95460df9880b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 11/74] fix: PionDecay spectrum was NaN for protons below the
 pion threshold

---
 src/naima/radiative.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 5c61fad..8992457 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1451,10 +1451,15 @@ class PionDecay(BaseProton):
         """
         Tp = Ep - self._m_p
 
-        diffsigma = self._Amax(Tp) * self._F(Tp, Egamma)
+        # there is no pion production below the threshold energy
+        above = np.where(Tp > self._Tth)
+        Tp = Tp[above]
+
+        diffsigma = np.zeros_like(Ep)
+        diffsigma[above] = self._Amax(Tp) * self._F(Tp, Egamma)
 
         if self.nuclear_enhancement:
-            diffsigma *= self._nuclear_factor(Tp)
+            diffsigma[above] *= self._nuclear_factor(Tp)
 
         return diffsigma
 
-- 
2.43.0


From a826d193b53e53e8a6b8b98c280e2f674bdbdf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 12/74] fix: use the PionDecay lookup table only where it is
 valid

Outside its limits the table returned the value at its closest edge
(a constant spectrum below 10 MeV, and gamma rays above 1 PeV for any
maximum proton energy), and the spline gave negative cross sections and
emission beyond the kinematic limits.
---
 src/naima/radiative.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 8992457..a1103f3 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1463,6 +1463,27 @@ class PionDecay(BaseProton):
 
         return diffsigma
 
+    def _diffsigma_LUT(self, Ep, Egamma):
+        """
+        Differential cross section from the lookup table within its limits, and
+        computed otherwise
+        """
+        lut = self.diffsigma
+
+        if not lut.ylim[0] <= np.log10(Egamma) <= lut.ylim[1]:
+            return self._diffsigma(Ep, Egamma)
+
+        diffsigma = lut(Ep, Egamma)
+
+        # the interpolation may oscillate around zero at the kinematic limits
+        if Egamma > Ep.max():
+            return np.zeros_like(Ep)
+
+        outside = np.where(np.log10(Ep) > lut.xlim[1])
+        diffsigma[outside] = self._diffsigma(Ep[outside], Egamma)
+
+        return diffsigma
+
     def _nuclear_factor(self, Tp):
         """
         Compute nuclear enhancement factor
@@ -1531,16 +1552,18 @@ class PionDecay(BaseProton):
         else:
             self.diffsigma = self._diffsigma
 
+        calc_diffsigma = self._diffsigma_LUT if self.useLUT else self._diffsigma
+
         Egamma = _validate_ene(photon_energy).to("GeV")
         Ep = self._Ep * u.GeV
         J = self._J * u.Unit("1/GeV")
 
         specpp = []
         for Eg in Egamma:
-            diffsigma = self.diffsigma(Ep.value, Eg.value) * u.Unit("cm2/GeV")
+            diffsigma = calc_diffsigma(Ep.value, Eg.value) * u.Unit("cm2/GeV")
             specpp.append(trapz_loglog(diffsigma * J, Ep))
 
-        self.specpp = u.Quantity(specpp)
+        self.specpp = np.maximum(u.Quantity(specpp), 0.0)
 
         self.specpp *= self.nh * c.cgs
 
@@ -1802,6 +1825,8 @@ class LookupTable:
         Y = f_lut.f.Y
         lut = f_lut.f.lut
         self.int_lut = RectBivariateSpline(X, Y, 10**lut, kx=3, ky=3, s=0)
+        self.xlim = (X.min(), X.max())
+        self.ylim = (Y.min(), Y.max())
         self.fname = filename
 
     def __call__(self, X, Y):
-- 
2.43.0


From 1d1c308e032ed005f958a1ca6a31cea063cb3a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 13/74] fix: EBL opacity above 100 TeV

It was set to 3.8 for all redshifts, including zero, so sources became
more transparent above 100 TeV than below, and the local universe opaque.
Also accept scalar energies.
---
 src/naima/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/naima/models.py b/src/naima/models.py
index aed3e17..ea85649 100644
--- a/src/naima/models.py
+++ b/src/naima/models.py
@@ -540,13 +540,14 @@ class EblAbsorptionModel(TableModel):
         super().__init__(energy, taus)
 
     def transmission(self, e):
-        e = _validate_ene(e)
+        e = np.atleast_1d(_validate_ene(e))
         taus = np.zeros(len(e))
         for i in range(0, len(e)):
             if e[i].to("GeV").value < 1.0:
                 taus[i] = 0.0
             elif e[i].to("TeV").value > 100.0:
-                taus[i] = np.log10(6000.0)
+                # keep the opacity at the highest energy available
+                taus[i] = np.log10(self(100.0 * u.TeV))
             else:
                 taus[i] = np.log10(self(e[i]))
         return np.exp(-taus)
-- 
2.43.0


From 3aab195070ad23f6b37f215dbe6f0e15078531f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 14/74] fix: use the confidence level of each violated upper
 limit

The penalty was read from the row numbered as the count of violated upper
limits, which could belong to another table or be out of range.
---
 src/naima/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index c397c6a..ff75678 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -88,8 +88,8 @@ def lnprobmodel(model, data):
 
     if np.sum(ul) > 0:
         # deal with upper limits at CL set by data['cl']
-        violated_uls = np.sum(model[ul] > data["flux"][ul])
-        totallogprob += violated_uls * np.log(1.0 - data["cl"][violated_uls])
+        violated_uls = model[ul] > data["flux"][ul]
+        totallogprob += np.sum(np.log(1.0 - data["cl"][ul][violated_uls]))
 
     return totallogprob
 
-- 
2.43.0


From baba0c0e2e14c1109e58b735fc41c461d2d20e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 15/74] fix: normal_prior is the logarithm of a normal
 distribution

---
 src/naima/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index ff75678..6599683 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -41,7 +41,7 @@ def uniform_prior(value, umin, umax):
 
 def normal_prior(value, mean, sigma):
     """Normal prior distribution."""
-    return -0.5 * (2 * np.pi * sigma) - (value - mean) ** 2 / (2.0 * sigma)
+    return -0.5 * np.log(2 * np.pi * sigma**2) - (value - mean) ** 2 / (2.0 * sigma**2)
 
 
 def log_uniform_prior(value, umin=0, umax=None):
-- 
2.43.0


From 0a5da231a8efc925c8c5a8da5edc37e826b7dbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 16/74] fix: log_uniform_prior is the logarithm of a 1/value
 distribution

---
 src/naima/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 6599683..4449bf3 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -49,11 +49,11 @@ def log_uniform_prior(value, umin=0, umax=None):
     if value > 0 and value >= umin:
         if umax is not None:
             if value <= umax:
-                return 1 / value
+                return -np.log(value)
             else:
                 return -np.inf
         else:
-            return 1 / value
+            return -np.log(value)
     else:
         return -np.inf
 
-- 
2.43.0


From 3cb97ff00651ad1a08612da02324449fc6a281fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 17/74] fix: do not modify the p0 and labels arguments in
 get_sampler

The normalization guess was written to the p0 of the caller (failing for
integers), and labels was extended in place.
---
 src/naima/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/naima/core.py b/src/naima/core.py
index 4449bf3..1be22df 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -341,6 +341,11 @@ def get_sampler(
     if model is None:
         raise TypeError("Model function is missing!")
 
+    # Work on copies so that the arguments are not modified
+    p0 = np.array(p0, dtype=float)
+    if labels is not None:
+        labels = list(labels)
+
     # Add parameter labels if not provided or too short
     if labels is None:
         # First is normalization
-- 
2.43.0


From efb52bc57e2a1746c47721758f73bd23dc4fa53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 18/74] fix: keep the units of model outputs of the same length

When all the outputs of a model function had the same length, e.g. the
total spectrum and a component, they were stored merged into a plain
array and could not be plotted, saved or listed.
---
 src/naima/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 1be22df..f9a3675 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -105,7 +105,12 @@ def lnprob(pars, data, modelfunc, priorfunc):
     # Save blobs or save model if no blobs given
     if isinstance(modelout, Iterable) and not isinstance(modelout, np.ndarray):
         model = modelout[0]
-        blob = modelout
+        blob = tuple(modelout)
+        # As below, outputs with the same length would be merged into a single
+        # array, losing their units
+        lengths = [len(b) if np.iterable(b) else None for b in blob]
+        if None not in lengths and len(set(lengths)) == 1:
+            blob = (*blob, np.nan)
     else:
         model = modelout
         # Avoid squeezing of the model output in order to retain units by
-- 
2.43.0


From 352835496c7633cf14ea69fe4eac1d02e145c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 19/74] fix: release the process pool when sampling fails, and
 do not reuse it

Running again a sampler returned by run_sampler failed with more than one
thread because it used the closed pool, and an exception while sampling
left the worker processes running.
---
 src/naima/core.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index f9a3675..3fba1dc 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -492,7 +492,14 @@ def get_sampler(
 
     if nburn > 0:
         print("Burning in the {0} walkers with {1} steps...".format(nwalkers, nburn))
-        sampler, state = _run_mcmc(sampler, p0, nburn)
+        try:
+            sampler, state = _run_mcmc(sampler, p0, nburn)
+        except BaseException:
+            # the caller has no access to the pool
+            if pool is not None:
+                pool.terminate()
+                pool.join()
+            raise
     else:
         state = emcee.State(p0)
 
@@ -537,12 +544,15 @@ def run_sampler(nrun=100, sampler=None, pos=None, **kwargs):
 
     print("\nWalker burn in finished, running {0} steps...".format(nrun))
     sampler.reset()
-    sampler, pos = _run_mcmc(sampler, pos, nrun)
-
-    # Clean up the multiprocessing pool
-    if hasattr(sampler, "_naima_pool") and sampler._naima_pool is not None:
-        sampler._naima_pool.close()
-        sampler._naima_pool.join()
-        sampler._naima_pool = None
+    try:
+        sampler, pos = _run_mcmc(sampler, pos, nrun)
+    finally:
+        # Clean up the multiprocessing pool
+        if hasattr(sampler, "_naima_pool") and sampler._naima_pool is not None:
+            sampler._naima_pool.close()
+            sampler._naima_pool.join()
+            sampler._naima_pool = None
+            # do not attempt to use it if the sampler is run again
+            sampler.pool = None
 
     return sampler, pos
-- 
2.43.0


From 8990fd9c8655600b129f56afc8515ef3a1d9b193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 20/74] fix: use the last step and not the last walker in
 save_results_table

---
 src/naima/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 70d500b..b1a4b00 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -239,7 +239,7 @@ def save_results_table(
     labels = sampler.labels
 
     if last_step:
-        dists = sampler.get_chain()[:, -1, :]
+        dists = sampler.get_chain()[-1]
     else:
         dists = sampler.get_chain(flat=True)
 
-- 
2.43.0


From 870d42071b778298e287e2c0a78fdc0b29b3981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 21/74] fix: save all the supported blobs in save_run

Blobs after one of unknown format were not read back by read_run, and
integer blobs were considered of unknown format.
---
 src/naima/analysis.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index b1a4b00..cec8770 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -407,11 +407,12 @@ def save_run(filename, sampler, compression=True, clobber=False):
 
         # blobs
         blob = sampler.get_blobs()[-1][0]
+        n_samples = np.prod(sampler.get_log_prob().shape)
         for idx, item in enumerate(blob):
             if isinstance(item, u.Quantity):
                 # scalar or array quantity
                 units = [item.unit.to_string()]
-            elif isinstance(item, float):
+            elif isinstance(item, (int, float, np.number)):
                 units = [""]
             elif (isinstance(item, tuple) or isinstance(item, list)) and np.all(
                 [isinstance(x, np.ndarray) for x in item]
@@ -425,8 +426,13 @@ def save_run(filename, sampler, compression=True, clobber=False):
             else:
                 log.warning(
                     "blob number {0} has unknown format and cannot be saved "
-                    "in HDF5 file"
+                    "in HDF5 file".format(idx)
                 )
+                # keep the numbering of the other blobs
+                blobdataset = group.create_dataset(
+                    "blob{0}".format(idx), data=np.full(n_samples, np.nan)
+                )
+                blobdataset.attrs["unit"] = ""
                 continue
 
             # traverse blobs list. This will probably be slow and there should
-- 
2.43.0


From fcbad5856f5b123177af11db86f2d333f341f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 22/74] fix: read back all the arrays of blobs with more than
 two in read_run

---
 src/naima/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index cec8770..8334ae7 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -553,7 +553,7 @@ def read_run(filename, modelfn=None):
                 blobs.append(u.Quantity(ds[()], unit=ds.attrs["unit"]))
             else:
                 blob = []
-                for j in range(np.ndim(ds[0])):
+                for j in range(ds.shape[1]):
                     blob.append(
                         u.Quantity(ds[:, j, :], unit=ds.attrs["unit{0}".format(j)])
                     )
@@ -572,7 +572,7 @@ def read_run(filename, modelfn=None):
                     walkerblob.append(blobs[j][n])
                 else:
                     blob = []
-                    for k in range(blobrank[j]):
+                    for k in range(len(blobs[j])):
                         blob.append(blobs[j][k][n])
                     walkerblob.append(blob)
             steplist.append(walkerblob)
-- 
2.43.0


From b354e6de8dbbad29dc872d179d52776f6cf8f51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 23/74] fix: keep blobs of the same length separate in read_run

---
 src/naima/analysis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 8334ae7..92f6b85 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -578,7 +578,12 @@ def read_run(filename, modelfn=None):
             steplist.append(walkerblob)
         result_blobs.append(steplist)
 
-    result._blobs = np.array(result_blobs, dtype=np.dtype("object"))
+    # fill in one by one, otherwise blobs of the same length would be merged
+    result._blobs = np.empty((nsteps, nwalkers, len(blobs)), dtype=np.dtype("object"))
+    for step in range(nsteps):
+        for walker in range(nwalkers):
+            for j in range(len(blobs)):
+                result._blobs[step, walker, j] = result_blobs[step][walker][j]
 
     # run info
     result.run_info = dict(f["mcmc"].attrs)
-- 
2.43.0


From ec6bac402c84d36346a6cdda390c31f881e536d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 24/74] fix: do not fail in save_results_table for
 non-numerical blobs

---
 src/naima/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 92f6b85..afc1f42 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -310,7 +310,7 @@ def save_results_table(
                 if blob0.size == 1:
                     IS_SCALAR = True
                     unit = blob0.unit
-            elif np.isscalar(blob0):
+            elif isinstance(blob0, (int, float, np.number)):
                 IS_SCALAR = True
                 unit = None
 
-- 
2.43.0


From f481a3efd09590358c9172d1704f3e08df5ad72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 25/74] fix: plot_fit of the results of read_run without a
 model function

The stored blobs were ignored, and the models recomputed.
---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 72c610d..627b33e 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -840,7 +840,7 @@ def plot_fit(
 
     data = sampler.data
 
-    if e_range is None and not hasattr(sampler, "blobs"):
+    if e_range is None and sampler.get_blobs() is None:
         e_range = data["energy"][[0, -1]] * np.array((1.0 / 3.0, 3.0))
 
     if plotdata is None and len(model_ML[0]) == len(data["energy"]):
-- 
2.43.0


From c96469b40971c0de14710e4d97503d000009b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 26/74] fix: compute enough samples to constrain the confidence
 bands

At most 100 were used instead of the 740 documented for 3 sigma.
---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 627b33e..1d9cade 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -457,7 +457,7 @@ def _calc_CI(
     # We limit it to 1000 samples and warn that it might not be enough
     if e_range is not None:
         maxconf = np.max(confs)
-        minsamples = min(100, int(1 / stats.norm.cdf(-maxconf) + 1))
+        minsamples = max(100, int(1 / stats.norm.cdf(-maxconf) + 1))
         if minsamples > 1000:
             log.warning(
                 "In order to sample the confidence band for {0} sigma,"
-- 
2.43.0


From dece622eb3e9a4f47efe933a6ca5b0e8c49692d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 27/74] fix: do not modify the arguments of plotting functions

The line width of the error bars of a plot was kept in the default
upper-limit options of all later plots.
---
 src/naima/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 1d9cade..416d3e5 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -559,7 +559,7 @@ def plot_CI(
         Whether to only use the positions in the final step of the run (True,
         default) or the whole chain (False).
     """
-    confs.sort(reverse=True)
+    confs = sorted(confs, reverse=True)
 
     modelx, CI = _calc_CI(
         sampler,
@@ -1034,6 +1034,7 @@ def _plot_data_to_ax(
     f_unit, sedf = sed_conversion(data_all["energy"], data_all["flux"].unit, sed)
 
     if "group" not in data_all.keys():
+        data_all = data_all.copy()
         data_all["group"] = np.zeros(len(data_all))
 
     groups = np.unique(data_all["group"])
@@ -1080,7 +1081,7 @@ def _plot_data_to_ax(
 
         if np.any(ul):
             if "elinewidth" in errorbar_opts:
-                ulim_opts["elinewidth"] = errorbar_opts["elinewidth"]
+                ulim_opts = dict(ulim_opts, elinewidth=errorbar_opts["elinewidth"])
 
             _plot_ulims(
                 ax1,
@@ -1132,6 +1133,7 @@ def _plot_residuals_to_ax(
 ):
     """Function to compute and plot residuals in units of the uncertainty"""
     if "group" not in data_all.keys():
+        data_all = data_all.copy()
         data_all["group"] = np.zeros(len(data_all))
 
     groups = np.unique(data_all["group"])
-- 
2.43.0


From 3686b03a3cdf90390a49f990103dfc93e9e81eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 28/74] fix: plot data where all points are compatible with
 zero

---
 src/naima/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 416d3e5..054f095 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1108,8 +1108,9 @@ def _plot_data_to_ax(
             data_all["flux_error_lo"][notul] * sedf[notul]
         ).to(f_unit).value
         gooderr = np.where(data_all["flux_error_lo"][notul] < data_all["flux"][notul])
-        ymin = 10 ** np.floor(np.log10(np.min(elo[gooderr])))
-        ax1.set_ylim(bottom=ymin)
+        if len(gooderr[0]) > 0:
+            ymin = 10 ** np.floor(np.log10(np.min(elo[gooderr])))
+            ax1.set_ylim(bottom=ymin)
 
     if ylabel is None:
         if sed:
-- 
2.43.0


From 155bc9bd6b2f77433c37e97ee9b012f905407c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 29/74] fix: compare energies in the same unit when plotting
 residuals

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 054f095..1026d3f 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1147,7 +1147,7 @@ def _plot_residuals_to_ax(
 
     interp = False
     if data_all["energy"].size != MLene.size or not np.allclose(
-        data_all["energy"].value, MLene.value
+        data_all["energy"].to(e_unit).value, MLene.value, atol=0
     ):
         interp = True
         from scipy.interpolate import interp1d
-- 
2.43.0


From 6cb12e8601f15b99ed127895fd59cef33cfbbc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 30/74] fix: restore the line width setting when the corner
 plot fails

---
 src/naima/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 1026d3f..81817f6 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1436,7 +1436,7 @@ def plot_corner(sampler, show_ML=True, **kwargs):
     except ImportError:
         log.warning("The corner package is not installed; corner plot not available")
         f = None
-
-    plt.rcParams["lines.linewidth"] = oldlw
+    finally:
+        plt.rcParams["lines.linewidth"] = oldlw
 
     return f
-- 
2.43.0


From 176a3a1ce3b76d98da58ef5cc13f11787c5456fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 31/74] fix: continue with the other diagnostic plots when the
 corner plot fails

As done for the chain and blob plots. The exception also left matplotlib
in non-interactive mode.
---
 src/naima/analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index afc1f42..879b0e3 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -108,7 +108,11 @@ def save_diagnostic_plots(
 
     log.info("Plotting corner plot...")
 
-    f = plot_corner(sampler)
+    try:
+        f = plot_corner(sampler)
+    except Exception as e:
+        log.warning("plot_corner failed: {0}".format(e))
+        f = None
     if f is not None:
         if pdf:
             f.savefig(outpdf, format="pdf", dpi=dpi)
-- 
2.43.0


From 7e6ac971f26e75746da59c3b14dd5748176b9991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 32/74] fix: do not modify blob_labels or the pdf settings in
 save_diagnostic_plots

---
 src/naima/analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 879b0e3..bc17e91 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -77,6 +77,7 @@ def save_diagnostic_plots(
     # This function should never be interactive
     old_interactive = plt.rcParams["interactive"]
     plt.rcParams["interactive"] = False
+    old_fonttype = plt.rcParams["pdf.fonttype"]
 
     if pdf:
         plt.rc("pdf", fonttype=42)
@@ -137,7 +138,7 @@ def save_diagnostic_plots(
     elif len(blob_labels) < len(modelidxs):
         # Add labels
         n = len(blob_labels)
-        blob_labels += ["Model output {0}".format(idx) for idx in modelidxs[n:]]
+        blob_labels = list(blob_labels) + ["Model output {0}".format(idx) for idx in modelidxs[n:]]
 
     for modelidx, plot_sed, label in zip(modelidxs, sed, blob_labels):
         try:
@@ -164,6 +165,7 @@ def save_diagnostic_plots(
 
     # set interactive back to original
     plt.rcParams["interactive"] = old_interactive
+    plt.rcParams["pdf.fonttype"] = old_fonttype
 
 
 def save_results_table(
-- 
2.43.0


From 77faa69b4920ea3f41ad04853d53bf5b38dfbbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 33/74] fix: close the file in read_run

The file could not be written again with save_run in the same session.
---
 src/naima/analysis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index bc17e91..de527ba 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -539,7 +539,13 @@ def read_run(filename, modelfn=None):
     result.modelfn = modelfn
     result.run_info = {}
 
-    f = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as f:
+        _read_result(f, result)
+
+    return result
+
+
+def _read_result(f, result):
     # chain and lnprobability
     result.chain = np.array(f["mcmc/chain"])
     result.log_prob = np.array(f["mcmc/log_prob"])
@@ -601,5 +607,3 @@ def read_run(filename, modelfn=None):
 
     # data
     result.data = read_table_hdf5(f["mcmc"], "data")
-
-    return result
-- 
2.43.0


From 2b9b3fcb98d3b31077f39a7b3827b6f32ff704fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 34/74] fix: restore the matplotlib interactive mode when the
 model fitter fails

---
 src/naima/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 3fba1dc..fd1d342 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -438,10 +438,12 @@ def get_sampler(
 
             iprev = plt.rcParams["interactive"]
             plt.rcParams["interactive"] = False
-            imf = InteractiveModelFitter(model, p0, data, labels=labels, sed=True)
+            try:
+                imf = InteractiveModelFitter(model, p0, data, labels=labels, sed=True)
+            finally:
+                plt.rcParams["interactive"] = iprev
             p0 = imf.pars
             P0_IS_ML = imf.P0_IS_ML
-            plt.rcParams["interactive"] = iprev
         except ImportError as e:
             log.warning(
                 "Interactive fitting is not available because"
-- 
2.43.0


From 4fd5d3afe3bcabe29a9b8c78ed2061d9fcfb0bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 35/74] fix: do not extend the labels of the caller in
 InteractiveModelFitter

---
 src/naima/model_fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index 6f96389..e86cfdb 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -74,7 +74,9 @@ class InteractiveModelFitter:
         if labels is None:
             labels = ["par{0}".format(i) for i in range(npars)]
         elif len(labels) < npars:
-            labels += ["par{0}".format(i) for i in range(len(labels), npars)]
+            labels = list(labels) + [
+                "par{0}".format(i) for i in range(len(labels), npars)
+            ]
 
         self.hasdata = data is not None
         self.data = None
-- 
2.43.0


From 0d7b884e0da57f5ebf7c8da16a5784ceef504287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 36/74] fix: allow the initial parameters in the sliders of
 InteractiveModelFitter

The range was reversed for negative parameters, and limited to 5 for
indices, so their values changed when moving any other slider.
---
 src/naima/model_fitter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index e86cfdb..843bda8 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -195,14 +195,17 @@ class InteractiveModelFitter:
                 pmin, pmax = valinit - span, valinit + span
             elif ("index" in label) or ("alpha" in label):
                 if valinit > 0.0:
-                    pmin, pmax = 0, 5
+                    pmin, pmax = 0, max(5, 2 * valinit)
                 else:
-                    pmin, pmax = -5, 0
+                    pmin, pmax = min(-5, 2 * valinit), 0
             elif "norm" in label or "amplitude" in label:
                 # norm without log, it will not be pretty because sliders are
                 # only linear
                 pmin, pmax = valinit / 100, valinit * 100
 
+            # reverse range for negative values
+            pmin, pmax = min(pmin, pmax), max(pmin, pmax)
+
             slider = Slider(
                 parax, label, pmin, pmax, valinit=valinit, valfmt="%.4g", **slider_props
             )
-- 
2.43.0


From 02133f2e059c3f1370b3b273ff30efb158d73085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 37/74] fix: keep fit results out of the slider range in
 InteractiveModelFitter

They were clipped, but still considered the maximum likelihood values.
---
 src/naima/model_fitter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index 843bda8..4014be6 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -267,6 +267,10 @@ class InteractiveModelFitter:
         self.autoupdate = False
         if P0_IS_ML:
             for slider, val in zip(self.parsliders, self.pars):
+                # extend the range if needed, otherwise val would be clipped
+                slider.valmin = min(slider.valmin, val)
+                slider.valmax = max(slider.valmax, val)
+                slider.ax.set_xlim(slider.valmin, slider.valmax)
                 slider.set_val(val)
             self.update("after_fit")
         self.autoupdate = autoupdate
-- 
2.43.0


From 4f15ff0da914dc307c5a1c62b30c288bd7f47dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 38/74] fix: generate_energy_edges for unsorted energies

The widths were negative and changed with the order of the table rows.
---
 src/naima/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index e12bbf1..4e861ee 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -357,13 +357,17 @@ def trapz_loglog(y, x, axis=-1, intervals=False):
 
 def _generate_energy_edges_single(ene):
     """Generate energy edges for single group"""
+    order = np.argsort(ene)
+    ene = ene[order]
     midene = np.sqrt((ene[1:] * ene[:-1]))
     elo, ehi = np.zeros(len(ene)) * ene.unit, np.zeros(len(ene)) * ene.unit
     elo[1:] = ene[1:] - midene
     ehi[:-1] = midene - ene[:-1]
     elo[0] = ene[0] * (1 - ene[0] / (ene[0] + ehi[0]))
     ehi[-1] = elo[-1]
-    return u.Quantity([elo, ehi])
+    edges = u.Quantity([elo, ehi])
+    # return them in the order of the input energies
+    return edges[:, np.argsort(order)]
 
 
 def generate_energy_edges(ene, groups=None):
-- 
2.43.0


From 2f1811400a61c3f39b7166ced25fb61bdb02b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 39/74] fix: show the parameters of unconverged fits in
 InteractiveModelFitter

---
 src/naima/model_fitter.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index 4014be6..38095f0 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -265,14 +265,14 @@ class InteractiveModelFitter:
         self.pars, P0_IS_ML = _prefit(self.pars, self.data, self.modelfn, None)
         autoupdate = self.autoupdate
         self.autoupdate = False
-        if P0_IS_ML:
-            for slider, val in zip(self.parsliders, self.pars):
-                # extend the range if needed, otherwise val would be clipped
-                slider.valmin = min(slider.valmin, val)
-                slider.valmax = max(slider.valmax, val)
-                slider.ax.set_xlim(slider.valmin, slider.valmax)
-                slider.set_val(val)
-            self.update("after_fit")
+        # the parameters may have changed even if the fit has not converged
+        for slider, val in zip(self.parsliders, self.pars):
+            # extend the range if needed, otherwise val would be clipped
+            slider.valmin = min(slider.valmin, val)
+            slider.valmax = max(slider.valmax, val)
+            slider.ax.set_xlim(slider.valmin, slider.valmax)
+            slider.set_val(val)
+        self.update("after_fit")
         self.autoupdate = autoupdate
         self.P0_IS_ML = P0_IS_ML
 
-- 
2.43.0


From 32c8a32e766ee52943272de78c6cf1352f34364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 40/74] fix: units of Bremsstrahlung emission with a weight of
 zero

Setting weight_ee or weight_ep to zero, as documented, failed because the
empty contribution was returned in units of energy.
---
 src/naima/radiative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index a1103f3..ba1c91d 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -948,7 +948,7 @@ class Bremsstrahlung(BaseElectron):
         Electron-electron bremsstrahlung emissivity per unit photon energy
         """
         if self.weight_ee == 0.0:
-            return np.zeros_like(Eph)
+            return np.zeros(Eph.shape) * c.cgs * u.cm**2 / Eph.unit
 
         gam = np.vstack(self._gam)
         # compute integral with electron distribution
@@ -964,7 +964,7 @@ class Bremsstrahlung(BaseElectron):
         Electron-proton bremsstrahlung emissivity per unit photon energy
         """
         if self.weight_ep == 0.0:
-            return np.zeros_like(Eph)
+            return np.zeros(Eph.shape) * c.cgs * u.cm**2 / Eph.unit
 
         gam = np.vstack(self._gam)
         eps = (Eph / mec2).decompose().value
-- 
2.43.0


From b16fd1684d3d4f5697d8c936cacd2484fa62a45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 41/74] fix: Bremsstrahlung spectrum was NaN at the energy of
 an electron grid point

The cross section diverges when the photon has all the energy of the
electron, e.g., for photon energies equal to Eemin.
---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index ba1c91d..7a68794 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -851,7 +851,7 @@ class Bremsstrahlung(BaseElectron):
         s1 = 4 * r0**2 * alpha / eps / mec2_unit
         s2 = 1 + (1.0 / 3.0 - eps / gam) * (1 - eps / gam)
         s3 = np.log(2 * gam * (gam - eps) / eps) - 1.0 / 2.0
-        s3[np.where(gam < eps)] = 0.0
+        s3[np.where(gam <= eps)] = 0.0
         return s1 * s2 * s3
 
     @staticmethod
-- 
2.43.0


From e5e173ee2e00fc42776b4ad5c628d76a19393235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 42/74] fix: negative Bremsstrahlung cross section close to the
 electron energy

The approximation turns negative for photons that take nearly all the energy
of the electron, resulting in a negative spectrum close to a low Eemax.
---
 src/naima/radiative.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 7a68794..84bf787 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -851,7 +851,8 @@ class Bremsstrahlung(BaseElectron):
         s1 = 4 * r0**2 * alpha / eps / mec2_unit
         s2 = 1 + (1.0 / 3.0 - eps / gam) * (1 - eps / gam)
         s3 = np.log(2 * gam * (gam - eps) / eps) - 1.0 / 2.0
-        s3[np.where(gam <= eps)] = 0.0
+        # negative close to gam = eps, and undefined above it
+        s3[~(s3 > 0.0)] = 0.0
         return s1 * s2 * s3
 
     @staticmethod
-- 
2.43.0


From 35ca1c67622547fcb1f184a36cfe03124458058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 43/74] fix: loss of precision in Bremsstrahlung at low photon
 energies

The terms of the cross section cancel out, so that the spectrum was numerical
noise, also negative, for photon energies below a few eV.
---
 src/naima/radiative.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 84bf787..b58f17f 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -868,7 +868,12 @@ class Bremsstrahlung(BaseElectron):
         s1_2 = -1 / eps**2 + 3 / eps - 4 - 4 * eps - 8 * eps**2
         s1_3 = -2 * (1 - 2 * eps) * np.log(1 - 2 * eps)
         s1_4 = 1 / (4 * eps**3) - 1 / (2 * eps**2) + 3 / eps - 2 + 4 * eps
-        s1 = s1_1 + s1_2 + s1_3 * s1_4
+        # the terms in s1_2 + s1_3 * s1_4 cancel out to below machine precision
+        # at low photon energies, where their series expansion is used instead
+        s1_low = 28 / 3 - 70 * eps / 3 + 128 * eps**2 / 15 - 272 * eps**3 / 15
+        s1_low -= 1504 * eps**4 / 105 + 1712 * eps**5 / 105
+        s1_low -= 6784 * eps**6 / 315 + 9728 * eps**7 / 315
+        s1 = s1_1 + np.where(eps < 0.01, s1_low, s1_2 + s1_3 * s1_4)
 
         s2_1 = 2 / eps
         s2_2 = (4 - 1 / eps + 1 / (4 * eps**2)) * np.log(2 * gam)
-- 
2.43.0


From 2765a3f71dd8738ae6b74ca5c0aba42ba24803c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 44/74] fix: overflow in trapz_loglog for very steep functions

The value at the upper edge of each bin was computed from the ratio of the
values at the edges, which overflows and resulted in infinite spectra close
to exponential cutoffs.
---
 src/naima/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index 4e861ee..73a7480 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -339,8 +339,7 @@ def trapz_loglog(y, x, axis=-1, intervals=False):
         # normal powerlaw integration
         trapzs = np.where(
             np.abs(b + 1.0) > 1e-10,
-            (y[slice1] * (x[slice2] * (x[slice2] / x[slice1]) ** b - x[slice1]))
-            / (b + 1),
+            (x[slice2] * y[slice2] - x[slice1] * y[slice1]) / (b + 1),
             x[slice1] * y[slice1] * np.log(x[slice2] / x[slice1]),
         )
 
-- 
2.43.0


From cca6e1ae5a60db62d0e3488f7ebf07c385e260da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 45/74] fix: PionDecay look-up table gives no emission below
 the production threshold

Below the lowest proton energy of the table the spline was clamped to its
edge instead of the zero cross section.
---
 src/naima/radiative.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index b58f17f..2635832 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1485,7 +1485,8 @@ class PionDecay(BaseProton):
         if Egamma > Ep.max():
             return np.zeros_like(Ep)
 
-        outside = np.where(np.log10(Ep) > lut.xlim[1])
+        logEp = np.log10(Ep)
+        outside = np.where((logEp < lut.xlim[0]) | (logEp > lut.xlim[1]))
         diffsigma[outside] = self._diffsigma(Ep[outside], Egamma)
 
         return diffsigma
-- 
2.43.0


From e0c0df8d926928d4e3d9467ee5668bff23a56210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 46/74] fix: clip the Bremsstrahlung spectrum instead of its
 cross section

Keeps the published cross section, which turns negative close to the electron
energy, and with it all spectra that were not negative.
---
 src/naima/radiative.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 2635832..29f38c9 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -851,8 +851,7 @@ class Bremsstrahlung(BaseElectron):
         s1 = 4 * r0**2 * alpha / eps / mec2_unit
         s2 = 1 + (1.0 / 3.0 - eps / gam) * (1 - eps / gam)
         s3 = np.log(2 * gam * (gam - eps) / eps) - 1.0 / 2.0
-        # negative close to gam = eps, and undefined above it
-        s3[~(s3 > 0.0)] = 0.0
+        s3[np.where(gam <= eps)] = 0.0
         return s1 * s2 * s3
 
     @staticmethod
@@ -998,7 +997,9 @@ class Bremsstrahlung(BaseElectron):
             self.weight_ee * self._emiss_ee(Eph) + self.weight_ep * self._emiss_ep(Eph)
         )
 
-        return spec
+        # the approximate cross sections are negative for photons that take nearly
+        # all the energy of the electron
+        return np.maximum(spec, 0.0)
 
 
 class BaseProton(BaseRadiative):
-- 
2.43.0


From 418ef5010199420cfbd1a678ed223d2a0507044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 47/74] fix: set_We and set_Wp modified in place the amplitude
 given by the caller

All other particle distributions built from the same Quantity were rescaled.
---
 src/naima/radiative.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 29f38c9..71613de 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -220,7 +220,11 @@ class BaseElectron(BaseRadiative):
 
         if amplitude_name is None:
             try:
-                self.particle_distribution.amplitude *= (We / oldWe).decompose()
+                amplitude = self.particle_distribution.amplitude
+                # a new object, as the amplitude may be shared with others
+                self.particle_distribution.amplitude = (
+                    amplitude * (We / oldWe).decompose()
+                )
             except AttributeError:
                 log.error(
                     "The particle distribution does not have an attribute"
@@ -1093,7 +1097,11 @@ class BaseProton(BaseRadiative):
 
         if amplitude_name is None:
             try:
-                self.particle_distribution.amplitude *= (Wp / oldWp).decompose()
+                amplitude = self.particle_distribution.amplitude
+                # a new object, as the amplitude may be shared with others
+                self.particle_distribution.amplitude = (
+                    amplitude * (Wp / oldWp).decompose()
+                )
             except AttributeError:
                 log.error(
                     "The particle distribution does not have an attribute"
-- 
2.43.0


From e6ef5ce1e80145b8a976f49ec8b7936a101f254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 48/74] fix: EBL transmission above 1 at low energies

---
 src/naima/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/models.py b/src/naima/models.py
index ea85649..2d49621 100644
--- a/src/naima/models.py
+++ b/src/naima/models.py
@@ -550,4 +550,5 @@ class EblAbsorptionModel(TableModel):
                 taus[i] = np.log10(self(100.0 * u.TeV))
             else:
                 taus[i] = np.log10(self(e[i]))
-        return np.exp(-taus)
+        # the interpolation may oscillate around zero at low energies
+        return np.exp(-np.maximum(taus, 0.0))
-- 
2.43.0


From 1d02924f6e418c0bce33255d7e94b908bd0259d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 49/74] fix: loss of precision of trapz_loglog for indices
 close to -1

Both terms of the difference are nearly equal if the local index is close, but
not equal to -1, or for narrow intervals.
---
 src/naima/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index 73a7480..4449fbd 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -335,12 +335,15 @@ def trapz_loglog(y, x, axis=-1, intervals=False):
         # Compute the power law indices in each integration bin
         b = np.log10(y[slice2] / y[slice1]) / np.log10(x[slice2] / x[slice1])
 
-        # if local powerlaw index is -1, use \int 1/x = log(x); otherwise use
-        # normal powerlaw integration
+        # if local powerlaw index is close to -1, use \int 1/x = log(x) and its
+        # first corrections; otherwise use normal powerlaw integration
+        logx = np.log(x[slice2] / x[slice1])
+        k = (b + 1.0) * logx
+        k = np.where(np.isnan(k), 0.0, k)
         trapzs = np.where(
-            np.abs(b + 1.0) > 1e-10,
+            np.abs(k) > 1e-5,
             (x[slice2] * y[slice2] - x[slice1] * y[slice1]) / (b + 1),
-            x[slice1] * y[slice1] * np.log(x[slice2] / x[slice1]),
+            x[slice1] * y[slice1] * logx * (1.0 + k / 2.0 + k**2 / 6.0),
         )
 
     tozero = (y[slice1] == 0.0) + (y[slice2] == 0.0) + (x[slice1] == x[slice2])
-- 
2.43.0


From 3443431c98f0561b21cf2e301fb1a39c4b608235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 50/74] fix: accept integer ul columns of any width in data
 tables

Only 64 bit integers were accepted as flags, and the narrower integers usual in
FITS tables were rejected.
---
 src/naima/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index 4449fbd..99207ba 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -174,7 +174,7 @@ def _validate_single_data_table(data_table, group=0):
     if "ul" in data_table.keys():
         # Check if it is a integer or boolean flag
         ul_col = data_table["ul"]
-        if ul_col.dtype.type is np.int_ or ul_col.dtype.type is np.bool_:
+        if ul_col.dtype.kind in "iub":
             data["ul"] = np.array(ul_col, dtype=bool)
         elif ul_col.dtype.type is np.str_:
             strbool = True
-- 
2.43.0


From 6014c0b11be7bc8c110210a181323330e7b5d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 51/74] fix: error for data tables of differential flux and
 differential luminosity

The check for incompatible tables did not consider differential spectra.
---
 src/naima/utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index 99207ba..d8a5d8b 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -91,17 +91,14 @@ def validate_data_table(data_table, sed=None):
     data_new = dt_sed_conversion(data_new, sed)
 
     for dt in data_list[1:]:
-        nf_pt = dt["flux"].unit.physical_type
-        if ("flux" in nf_pt and "power" in f_pt) or (
-            "power" in nf_pt and "flux" in f_pt
-        ):
+        dt = dt_sed_conversion(dt, sed)
+
+        if dt["flux"].unit != data_new["flux"].unit:
             raise TypeError(
                 "The physical types of the data tables could not be "
                 "matched: Some are in flux and others in luminosity units"
             )
 
-        dt = dt_sed_conversion(dt, sed)
-
         for row in dt:
             data_new.add_row(row)
 
-- 
2.43.0


From e4bf3f35843a3af658174f200faeaac35c0b2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 52/74] fix: normalization guess for labels such as Log10(norm)

---
 src/naima/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index fd1d342..b1a1865 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -410,9 +410,9 @@ def get_sampler(
                 data["energy"],
             )
             ratio = dataFlux / currFlux
-            if labels[idxs[0]].startswith("log("):
+            if labels[idxs[0]].lower().startswith("log("):
                 p0[idxs[0]] += np.log(ratio)
-            elif labels[idxs[0]].startswith("log10("):
+            elif labels[idxs[0]].lower().startswith("log10("):
                 p0[idxs[0]] += np.log10(ratio)
             else:
                 p0[idxs[0]] *= ratio
-- 
2.43.0


From bce920631a3738094ea524d818f448a319caf5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 53/74] fix: keep any label in save_results_table

---
 src/naima/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index de527ba..761e13a 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -253,7 +253,7 @@ def save_results_table(
     # Do we need more info on the distributions?
     t = Table(
         names=["label", "median", "unc_lo", "unc_hi"],
-        dtype=["S72", "f8", "f8", "f8"],
+        dtype=["U{0}".format(max([72] + [len(label) for label in labels])), "f8", "f8", "f8"],
     )
     t["label"].description = "Name of the parameter"
     t["median"].description = "Median of the posterior distribution function"
-- 
2.43.0


From 027633203b41523c1de0c2d1d770cc1c5f50cc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 54/74] fix: energy units of data added to an existing plot

---
 src/naima/plot.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 81817f6..60ce3bd 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1271,10 +1271,17 @@ def plot_data(
         ax1 = f.add_subplot(111)
 
     # try to get units from previous plot in figure
-    try:
-        old_e_unit = u.Unit(ax1.get_xlabel().split("[")[-1].split("]")[0])
-    except ValueError:
-        old_e_unit = u.Unit("")
+    old_e_unit = u.Unit("")
+    for ax in f.axes:
+        old_label = ax.get_xlabel().split("[")[-1].split("]")[0]
+        # the units are written in labels as LaTeX
+        old_label = old_label.replace(r"$\mathrm{", "").replace("}$", "")
+        try:
+            old_e_unit = u.Unit(old_label)
+        except ValueError:
+            continue
+        if old_e_unit.physical_type == "energy":
+            break
 
     if e_unit is None and old_e_unit.physical_type == "energy":
         e_unit = old_e_unit
-- 
2.43.0


From 69009b92bb1b5d2401f7deb75a1a4d2a6108b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 55/74] fix: plot confidence bands at any confidence level

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 60ce3bd..5fa5cf9 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -574,7 +574,7 @@ def plot_CI(
     f_unit, sedf = sed_conversion(modelx, CI[0][0].unit, sed)
 
     for (ymin, ymax), conf in zip(CI, confs):
-        color = np.log(conf) / np.log(20) + 0.4
+        color = min(max(np.log(conf) / np.log(20) + 0.4, 0), 1)
         ax.fill_between(
             modelx.to(e_unit).value,
             (ymax * sedf).to(f_unit).value,
-- 
2.43.0


From b78ba3b06ae67621dec48cacd07af3f87d1741eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 56/74] fix: analysis of parameters with log( inside of their
 label

---
 src/naima/analysis.py | 2 +-
 src/naima/plot.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 761e13a..183d803 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -291,7 +291,7 @@ def save_results_table(
 
         t.add_row((label, med, lo, hi))
 
-        if convert_log and ("log10(" in label or "log(" in label):
+        if convert_log and label.startswith(("log10(", "log(")):
             nlabel = label.split("(")[-1].split(")")[0]
             ltype = label.split("(")[0]
             if ltype == "log10":
diff --git a/src/naima/plot.py b/src/naima/plot.py
index 5fa5cf9..a79e046 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -241,7 +241,7 @@ def _plot_chain_func(sampler, p, last_step=False):
 
     chain_props += info_line
 
-    if "log10(" in label or "log(" in label:
+    if label.startswith(("log10(", "log(")):
         nlabel = label.split("(")[-1].split(")")[0]
         ltype = label.split("(")[0]
         if ltype == "log10":
-- 
2.43.0


From 44f67ddb03c69fc62c09f70aa803e3727d219ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:40 +0000
Subject: [PATCH 57/74] fix: confidence level of upper limits in the
 interactive fitter of get_sampler

---
 src/naima/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index d8a5d8b..d4a9d5f 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -199,6 +199,11 @@ def _validate_single_data_table(data_table, group=0):
             CL = validate_scalar("cl", data_table.meta["keywords"]["cl"]["value"])
             data["cl"] = [CL] * len(data["energy"])
 
+    if not HAS_CL and "cl" in data_table.colnames:
+        # avoid overwriting the levels of a table that was validated before
+        HAS_CL = True
+        data["cl"] = np.array(data_table["cl"], dtype=float)
+
     if not HAS_CL:
         data["cl"] = [0.9] * len(data["energy"])
         if np.sum(data["ul"]) > 0:
-- 
2.43.0


From 8bccf31fd234884483e1559de84c199db6f7d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:18 +0000
Subject: [PATCH 58/74] fix: PionDecayKelner06 accepted target densities of any
 unit

---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 71613de..55457c7 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1812,7 +1812,7 @@ class PionDecayKelner06(BaseRadiative):
                 else:
                     self.specpp[i] = self._calc_specpp_loE(Egamma)
 
-        density_factor = (self.nh / (1 * u.Unit("1/cm3"))).decompose().value
+        density_factor = self.nh.to("1/cm3").value
 
         return density_factor * self.specpp.to("1/(s eV)")
 
-- 
2.43.0


From e12fe888fd84e27f23d3827b90a596132211dcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:18 +0000
Subject: [PATCH 59/74] fix: estimate_B accepted a flux and a luminosity

---
 src/naima/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index d4a9d5f..396d24a 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -543,7 +543,7 @@ def estimate_B(xray_table, vhe_table, photon_energy_density=0.261 * u.eV / u.cm*
 
     uph = (photon_energy_density.to("erg/cm3")).value
 
-    B0 = (np.sqrt((xray_lum / vhe_lum).decompose().value * 8 * np.pi * uph) * u.G).to(
+    B0 = (np.sqrt((xray_lum / vhe_lum).to("").value * 8 * np.pi * uph) * u.G).to(
         "uG"
     )
 
-- 
2.43.0


From 483ee940cd080e75e1e09b586e2a493b95f1f4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 60/74] fix: numbers with an uncertainty or median of zero in
 the text of distributions

---
 src/naima/plot.py | 46 ++++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index a79e046..51e2a5d 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -72,36 +72,38 @@ def round2(x, n):
     return y
 
 
-def _latex_value_error(val, elo, ehi=0, tol=0.25):
-    order = int(np.log10(abs(val)))
+def _latex_value_error(val, elo, ehi=None, tol=0.25):
+    if ehi is None:
+        ehi = elo
+    if elo == 0 and ehi == 0:
+        return "$" + _latex_float(val) + " \\pm 0$"
+    order = int(np.log10(abs(val))) if val != 0 else 0
     if order > 2 or order < -2:
         val /= 10**order
         elo /= 10**order
         ehi /= 10**order
     else:
         order = 0
-    nlo = -int(np.floor(np.log10(elo)))
-    if elo * 10**nlo < 2:
+    # an uncertainty of zero is given with the decimals of the other one
+    nlo = -int(np.floor(np.log10(elo or ehi)))
+    if (elo or ehi) * 10**nlo < 2:
         nlo += 1
-    if ehi:
-        # elo = round(elo,nlo)
-        nhi = -int(np.floor(np.log10(ehi)))
-        if ehi * 10**nhi < 2:
-            nhi += 1
-        # ehi = round(ehi,nhi)
-        if np.abs(elo - ehi) / ((elo + ehi) / 2.0) > tol:
-            n = max(nlo, nhi)
-            string = "{0}^{{+{1}}}_{{-{2}}}".format(
-                *[round2(x, nn) for x, nn in zip([val, ehi, elo], [n, nhi, nlo])]
-            )
-        else:
-            e = (elo + ehi) / 2.0
-            n = -int(np.floor(np.log10(e)))
-            if e * 10**n < 2:
-                n += 1
-            string = "{0} \\pm {1}".format(*[round2(x, n) for x in [val, e]])
+    # elo = round(elo,nlo)
+    nhi = -int(np.floor(np.log10(ehi or elo)))
+    if (ehi or elo) * 10**nhi < 2:
+        nhi += 1
+    # ehi = round(ehi,nhi)
+    if np.abs(elo - ehi) / ((elo + ehi) / 2.0) > tol:
+        n = max(nlo, nhi)
+        string = "{0}^{{+{1}}}_{{-{2}}}".format(
+            *[round2(x, nn) for x, nn in zip([val, ehi, elo], [n, nhi, nlo])]
+        )
     else:
-        string = "{0} \\pm {1}".format(*[round2(x, nlo) for x in [val, elo]])
+        e = (elo + ehi) / 2.0
+        n = -int(np.floor(np.log10(e)))
+        if e * 10**n < 2:
+            n += 1
+        string = "{0} \\pm {1}".format(*[round2(x, n) for x in [val, e]])
     if order != 0:
         string = "(" + string + r")\times10^{{{0}}}".format(order)
 
-- 
2.43.0


From 060e1506ef1ba326c9dd92b442771b45db9a71af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:00 +0000
Subject: [PATCH 61/74] fix: save_diagnostic_plots left the figures of failed
 plots open

---
 src/naima/analysis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 183d803..73197e2 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -78,6 +78,7 @@ def save_diagnostic_plots(
     old_interactive = plt.rcParams["interactive"]
     plt.rcParams["interactive"] = False
     old_fonttype = plt.rcParams["pdf.fonttype"]
+    old_figures = plt.get_fignums()
 
     if pdf:
         plt.rc("pdf", fonttype=42)
@@ -163,6 +164,10 @@ def save_diagnostic_plots(
     if pdf:
         outpdf.close()
 
+    # close the figures of plots that failed
+    for num in set(plt.get_fignums()) - set(old_figures):
+        plt.close(num)
+
     # set interactive back to original
     plt.rcParams["interactive"] = old_interactive
     plt.rcParams["pdf.fonttype"] = old_fonttype
-- 
2.43.0


From f85ff3ded99ba1e0e0c380531ee01bf5d9bc4725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:42 +0000
Subject: [PATCH 62/74] fix: normalization guess for a single data point or a
 model of zero flux

---
 src/naima/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index b1a1865..160c6f8 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -410,7 +410,13 @@ def get_sampler(
                 data["energy"],
             )
             ratio = dataFlux / currFlux
-            if labels[idxs[0]].lower().startswith("log("):
+            if not (np.isfinite(ratio) and ratio > 0):
+                # e.g., a single energy, or a model that is zero
+                log.warning(
+                    "Flux of the data or the model not positive: not applying"
+                    " normalization guess."
+                )
+            elif labels[idxs[0]].lower().startswith("log("):
                 p0[idxs[0]] += np.log(ratio)
             elif labels[idxs[0]].lower().startswith("log10("):
                 p0[idxs[0]] += np.log10(ratio)
-- 
2.43.0


From 22c52218589987a339da3fc77b1e82ae9c1a5b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:48 +0000
Subject: [PATCH 63/74] fix: default values in the documentation of last_step,
 ML_info and nEed

---
 src/naima/analysis.py  |  4 ++--
 src/naima/plot.py      | 10 +++++-----
 src/naima/radiative.py |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 73197e2..7c43802 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -213,8 +213,8 @@ def save_results_table(
         in addition to saving the logarithm value.
 
     last_step : bool, optional
-        Whether to only use the positions in the final step of the run (True,
-        default) or the whole chain (False).
+        Whether to only use the positions in the final step of the run (True)
+        or the whole chain (False, default).
 
     include_blobs : bool, optional
         Whether to save the distribution properties of the scalar blobs in the
diff --git a/src/naima/plot.py b/src/naima/plot.py
index 51e2a5d..41ac764 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -558,8 +558,8 @@ def plot_CI(
         How many parallel processing threads to use when computing the samples.
         Defaults to the number of available cores.
     last_step : bool, optional
-        Whether to only use the positions in the final step of the run (True,
-        default) or the whole chain (False).
+        Whether to only use the positions in the final step of the run (True)
+        or the whole chain (False, default).
     """
     confs = sorted(confs, reverse=True)
 
@@ -635,8 +635,8 @@ def plot_samples(
         How many parallel processing threads to use when computing the samples.
         Defaults to the number of available cores.
     last_step : bool, optional
-        Whether to only use the positions in the final step of the run (True,
-        default) or the whole chain (False).
+        Whether to only use the positions in the final step of the run (True)
+        or the whole chain (False, default).
     """
 
     modelx, model = _read_or_calc_samples(
@@ -792,7 +792,7 @@ def plot_fit(
         confidence bands.
     ML_info : bool, optional
         Whether to plot information about the maximum likelihood parameters and
-        the standard deviation of their distributions. Default is True.
+        the standard deviation of their distributions. Default is False.
     figure : `matplotlib.figure.Figure`, optional
         `matplotlib` figure to plot on. If omitted a new one will be generated.
     plotdata : bool, optional
diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 55457c7..39efbde 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -421,7 +421,7 @@ class InverseCompton(BaseElectron):
 
     nEed : scalar
         Number of points per decade in energy for the electron energy and
-        distribution arrays. Default is 300.
+        distribution arrays. Default is 100.
     """
 
     def __init__(self, particle_distribution, seed_photon_fields=["CMB"], **kwargs):
-- 
2.43.0


From 1ad62f90870e0d11e6ca46b9b62a2eeb3ea5221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:40 +0000
Subject: [PATCH 64/74] fix: negative energies or densities in tabulated seed
 photon fields and tables were accepted

---
 src/naima/extern/validator.py | 3 +++
 src/naima/utils.py            | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/naima/extern/validator.py b/src/naima/extern/validator.py
index e6f819f..88a36fe 100644
--- a/src/naima/extern/validator.py
+++ b/src/naima/extern/validator.py
@@ -82,4 +82,7 @@ def validate_array(name, value, domain=None, ndim=1, shape=None, physical_type=N
                 )
             )
 
+    if domain == "positive" and np.any(value < 0.0):
+        raise ValueError("{0} should be positive".format(name))
+
     return value
diff --git a/src/naima/utils.py b/src/naima/utils.py
index 396d24a..803c2f6 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -20,7 +20,7 @@ __all__ = [
 # Input validation tools
 
 
-def validate_column(data_table, key, pt, domain="positive"):
+def validate_column(data_table, key, pt, domain=None):
     try:
         column = data_table[key]
         array = validate_array(
-- 
2.43.0


From 3e4a134fd2a352fda0108347cc59934162438903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 65/74] fix: accept a confidence level keyword that is a plain
 number

---
 src/naima/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index 803c2f6..cd17958 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -196,7 +196,11 @@ def _validate_single_data_table(data_table, group=0):
     if "keywords" in data_table.meta.keys():
         if "cl" in data_table.meta["keywords"].keys():
             HAS_CL = True
-            CL = validate_scalar("cl", data_table.meta["keywords"]["cl"]["value"])
+            CL = data_table.meta["keywords"]["cl"]
+            # keywords read by astropy.io.ascii are dicts
+            if isinstance(CL, dict):
+                CL = CL["value"]
+            CL = validate_scalar("cl", CL)
             data["cl"] = [CL] * len(data["energy"])
 
     if not HAS_CL and "cl" in data_table.colnames:
-- 
2.43.0


From fd8a6b82c0b6cf859a67cf2602d87f98be38437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 66/74] fix: interrupts during parallel evaluation do not hang
 or leave workers

---
 src/naima/core.py | 11 +++++++++--
 src/naima/plot.py |  4 +++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 160c6f8..69985eb 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
 import os
+import signal
 import warnings
 from collections.abc import Iterable
 from multiprocessing import Pool
@@ -463,7 +464,13 @@ def get_sampler(
 
     if threads is None:
         threads = os.cpu_count() or 1
-    pool = Pool(threads) if threads > 1 else None
+    # an interrupt is handled by this process: workers that die from it would
+    # leave the pool waiting for their results
+    pool = (
+        Pool(threads, signal.signal, (signal.SIGINT, signal.SIG_IGN))
+        if threads > 1
+        else None
+    )
 
     sampler = emcee.EnsembleSampler(
         nwalkers,
@@ -505,7 +512,7 @@ def get_sampler(
         except BaseException:
             # the caller has no access to the pool
             if pool is not None:
-                pool.terminate()
+                pool.close()
                 pool.join()
             raise
     else:
diff --git a/src/naima/plot.py b/src/naima/plot.py
index 41ac764..6b57345 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1,4 +1,5 @@
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
+import signal
 from multiprocessing import Pool
 
 import astropy.units as u
@@ -381,7 +382,8 @@ def _read_or_calc_samples(
         args = ((p, data) for p in pars)
         blobs = []
 
-        with Pool(threads) as pool:
+        # an interrupt is handled by this process, not by the workers
+        with Pool(threads, signal.signal, (signal.SIGINT, signal.SIG_IGN)) as pool:
             modelouts = pool.starmap(sampler.modelfn, args)
 
         for modelout in modelouts:
-- 
2.43.0


From eb067d97bcf1eb003082d6156bda039d155c9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:16 +0000
Subject: [PATCH 67/74] fix: Kelner et al. spectrum of populations that end
 below the transition energy was nan

---
 src/naima/radiative.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 39efbde..51f79eb 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1802,7 +1802,8 @@ class PionDecayKelner06(BaseRadiative):
                 # accurate calculation at 0.1TeV
                 full = self._calc_specpp_hiE(self.Etrans)
                 delta = self._calc_specpp_loE(self.Etrans)
-                self.nhat *= (full / delta).decompose().value
+                if delta > 0:
+                    self.nhat *= (full / delta).decompose().value
 
             self.specpp = np.zeros(len(outspecene)) * u.Unit("1/(s TeV)")
 
-- 
2.43.0


From 0027a4ba836043a546802b0867e76605429469d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:29 +0000
Subject: [PATCH 68/74] fix: keep the buttons of the interactive fitter alive

---
 src/naima/model_fitter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index 38095f0..dc34a06 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -230,6 +230,12 @@ class InteractiveModelFitter:
         close_button = Button(closeax, "Close window")
         close_button.on_clicked(self.close_fig)
 
+        # the buttons stop responding if they are not referenced, and plt.show
+        # returns immediately in interactive mode
+        self.buttons = [auto_update_check, update_button, close_button]
+        if self.hasdata:
+            self.buttons.append(fit_button)
+
         self.fig.subplots_adjust(top=0.98, right=0.98, bottom=0.02, hspace=0.2)
 
         plt.show()
-- 
2.43.0


From 22f83d04db0dd629b4246a0bfbc96f36310b8958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:37 +0000
Subject: [PATCH 69/74] fix: guess of Sherpa models from a single point or
 negative fluxes gave nan

---
 src/naima/sherpa_models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/naima/sherpa_models.py b/src/naima/sherpa_models.py
index ce9f01c..5bc900e 100644
--- a/src/naima/sherpa_models.py
+++ b/src/naima/sherpa_models.py
@@ -39,7 +39,12 @@ class SherpaModel(ArithmeticModel):
         model = self.calc([p.val for p in self.pars], xlo, xhi)
         obsflux = trapz_loglog(dep, xlo)
         modflux = trapz_loglog(model, xlo)
-        self.ampl.set(self.ampl.val * obsflux / modflux)
+        norm = obsflux / modflux
+        if not np.isfinite(norm):
+            # e.g., a single point or bin, or negative fluxes
+            norm = np.sum(dep) / np.sum(model)
+        if np.isfinite(norm) and norm > 0:
+            self.ampl.set(self.ampl.val * norm)
 
     @modelCacher1d
     def calc(self, p, x, xhi=None):
-- 
2.43.0


From f8b69382fd0c29a04c6f668bb86ddc9ed95be3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:37 +0000
Subject: [PATCH 70/74] fix: diagnostic plots of parameters with a slash in
 their label were not saved

---
 src/naima/analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 7c43802..711e547 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -98,6 +98,8 @@ def save_diagnostic_plots(
             else:
                 if "log(" in label or "log10(" in label:
                     label = label.split("(")[-1].split(")")[0]
+                # the labels may contain separators, e.g., in units
+                label = label.replace(os.sep, "_")
                 f.savefig("{0}_chain_{1}.png".format(outname, label), dpi=dpi)
             f.clf()
             plt.close(f)
-- 
2.43.0


From b5de3ac4ba7796ed95352c33b4871c44aa18ee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:37 +0000
Subject: [PATCH 71/74] fix: negative fluxes could not be plotted

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 6b57345..002c2de 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1057,7 +1057,7 @@ def _plot_data_to_ax(
         # Hack to show y errors compatible with 0 in loglog plot
         yerr_lo = data["flux_error_lo"][notul]
         y = data["flux"][notul].to(yerr_lo.unit)
-        bad_err = np.where((y - yerr_lo) <= 0.0)
+        bad_err = np.where((y >= 0.0) & ((y - yerr_lo) <= 0.0))
         yerr_lo[bad_err] = y[bad_err] * (1.0 - 1e-7)
         yerr = u.Quantity((yerr_lo, data["flux_error_hi"][notul]))
         xerr = u.Quantity((data["energy_error_lo"], data["energy_error_hi"]))
-- 
2.43.0


From adb0cf60a05f5b7513f3f35a8ff1f82a583a6e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:37 +0000
Subject: [PATCH 72/74] fix: products of integers overflowed in trapz_loglog

---
 src/naima/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index cd17958..367b978 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -320,8 +320,9 @@ def trapz_loglog(y, x, axis=-1, intervals=False):
     except AttributeError:
         x_unit = 1.0
 
-    y = np.asanyarray(y)
-    x = np.asanyarray(x)
+    # the products of integers may overflow
+    y = np.asanyarray(y, dtype=float)
+    x = np.asanyarray(x, dtype=float)
 
     slice1 = [slice(None)] * y.ndim
     slice2 = [slice(None)] * y.ndim
-- 
2.43.0


From a330fd72a0d3384b520b47c6666499a7533f9262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:37 +0000
Subject: [PATCH 73/74] fix: tables with zeros gave nan at all energies

---
 src/naima/models.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/naima/models.py b/src/naima/models.py
index 2d49621..371c0f3 100644
--- a/src/naima/models.py
+++ b/src/naima/models.py
@@ -459,6 +459,22 @@ class TableModel:
             self.unit = u.Unit("")
             logy = np.log10(self._values)
 
+        # the logarithm of zero cannot be interpolated: the model is zero from a
+        # zero of the table to the energies next to it
+        zero = np.isneginf(logy)
+        self._iszero = []
+        if np.any(zero):
+            order = np.argsort(loge[~zero])
+            logy[zero] = (
+                np.interp(loge[zero], loge[~zero][order], logy[~zero][order])
+                if len(order) > 0
+                else 0.0
+            )
+            self._iszero = [
+                interp1d(loge, 1.0 * zero, fill_value=0, bounds_error=False, kind=kind)
+                for kind in ("previous", "next")
+            ]
+
         self._interplogy = interp1d(
             loge, logy, fill_value=-np.inf, bounds_error=False, kind="cubic"
         )
@@ -466,6 +482,8 @@ class TableModel:
     def __call__(self, e):
         e = _validate_ene(e)
         interpy = np.power(10, self._interplogy(np.log10(e.to("eV").value)))
+        for iszero in self._iszero:
+            interpy = np.where(iszero(np.log10(e.to("eV").value)) > 0, 0.0, interpy)
         return self.amplitude * interpy * self.unit
 
 
-- 
2.43.0


From 87a81eb0926e91a3fd8d45b45aafa9fb4c14e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:30 +0000
Subject: [PATCH 74/74] fix: models that are positive nowhere could not be
 plotted

---
 src/naima/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 002c2de..b9935ef 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -963,8 +963,10 @@ def plot_fit(
         # maximum
         f_unit, sedf = sed_conversion(model_ML[0], model_ML[1].unit, sed)
         hi = np.where((model_ML[1] * sedf).to(f_unit).value > ymin)
-        xmax = np.max(model_ML[0][hi])
-        ax1.set_xlim(right=10 ** np.ceil(np.log10(xmax.to(e_unit).value)))
+        # (a model may be positive nowhere)
+        if len(hi[0]) > 0:
+            xmax = np.max(model_ML[0][hi])
+            ax1.set_xlim(right=10 ** np.ceil(np.log10(xmax.to(e_unit).value)))
 
     if e_range is not None:
         # ensure that xmin/xmax contains e_range
-- 
2.43.0

