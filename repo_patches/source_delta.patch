From 2645865d97563c5a982eabd08f1c32633b85b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 01/10] fix: relative performance payoff divides by Q2*S2
 (option == 8)

(Q1*S1 / Q2*S2) parsed as Q1*S1/Q2*S2; the documented payoff is (Q1*S1)/(Q2*S2).
---
 src/finoptions/spread_options/bitree3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index bbaafd2..f89be5a 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -219,7 +219,7 @@ class BionomialSpreadAllTypes(_Option):
         elif option == 7: # Exchange option
             return _np.maximum(0, z*(Q2*S2 - Q1*S1))
         elif option == 8: # Outperformance option
-            return _np.maximum(0, z*((Q1*S1 / Q2*S2) - K))
+            return _np.maximum(0, z*((Q1*S1) / (Q2*S2) - K))
         elif option == 9: # Product option
             return _np.maximum(0, z*((Q1*S1 * Q2*S2) - K))
         
-- 
2.43.0


From dc49ca7559f2400caa1bad0c172d17617c61f892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 02/10] fix: symmetric HN-GARCH filter ignores gamma

~True is -2 and so truthy: gamma was used even when symmetric=True.
---
 src/finoptions/heston_nandi_options/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index dcd5431..9c9e253 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -259,7 +259,7 @@ def _llhHNGarch(x0, trace, symmetric, rfr, x, ret_obj=False):
     beta = 1 / (1 + _np.exp(-beta))
 
     # Add gamma if selected:
-    if ~symmetric:
+    if not symmetric:
         gam = gamma
     else:
         gam = 0
@@ -312,9 +312,8 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
     par_omega = -_np.log((1-omega)/omega)  # for 2
     par_alpha = -_np.log((1-alpha)/alpha)  # for 3
     par_beta = -_np.log((1-beta)/beta)     # for 4
-    par_start = [lamb, par_omega, par_alpha, par_beta]
-    if ~symmetric:
-        par_start.append(gam)
+    # gamma is always part of the parameter vector, the filter ignores it if symmetric
+    par_start = [lamb, par_omega, par_alpha, par_beta, gam]
 
     # Initial Log Likelihood:
     opt = dict()
-- 
2.43.0


From 586e025141de9ebc9d162f753d53b7f2ec51ec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 03/10] fix: Monte Carlo trace prints the running mean of the
 loops so far

---
 src/finoptions/monte_carlo_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/__init__.py b/src/finoptions/monte_carlo_options/__init__.py
index acd98fb..a1bad93 100644
--- a/src/finoptions/monte_carlo_options/__init__.py
+++ b/src/finoptions/monte_carlo_options/__init__.py
@@ -293,7 +293,7 @@ class MonteCarloOption:  # _Option
                 i,
                 "\t:",
                 iteration[i],
-                _np.sum(iteration) / (i + 1),
+                _np.sum(iteration[: i + 1]) / (i + 1),
                 end="",
             )
         print("\n")
-- 
2.43.0


From 4a360c24333d0332a05c9059ef13d8167ea61a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 04/10] fix: resample Sobol innovations that contain -inf

Only the maximum was inspected, so a -inf draw went through.
---
 src/finoptions/monte_carlo_options/mc_innovations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/mc_innovations.py b/src/finoptions/monte_carlo_options/mc_innovations.py
index a1e356e..d2d6793 100644
--- a/src/finoptions/monte_carlo_options/mc_innovations.py
+++ b/src/finoptions/monte_carlo_options/mc_innovations.py
@@ -35,7 +35,7 @@ class NormalSobolInnovations(Innovations):
         sobol = self._get_sobol(scramble)
 
         # avoid inf
-        while _np.abs(_np.max(sobol)) == _np.inf:
+        while not _np.all(_np.isfinite(sobol)):
             sobol = self._get_sobol(scramble)
 
         if self._eps is None:
-- 
2.43.0


From 40f639b95ef7dffe8a1ab067ab7638c7f7747eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 05/10] fix: GBSOption.rho accepts an array cost of carry

`if self._b != 0` is ambiguous for arrays; every other greek takes them.
---
 src/finoptions/vanillaoptions.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 0479872..22e89bf 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -300,31 +300,23 @@ class GBSOption(Option):
         if method == "analytic":
             if call == True:
                 price = self.call()
-                if self._b != 0:
-                    result = (
-                        self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(self._d2)
-                    )
-                else:
-                    result = -self._t * price
+                result = _np.where(
+                    self._b != 0,
+                    self._t * self._K * _np.exp(-self._r * self._t) * self._CND(self._d2),
+                    -self._t * price,
+                )
             else:
                 price = self.put()
-                if self._b != 0:
-                    result = (
-                        -self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(-self._d2)
-                    )
-                else:
-                    result = -self._t * price
+                result = _np.where(
+                    self._b != 0,
+                    -self._t * self._K * _np.exp(-self._r * self._t) * self._CND(-self._d2),
+                    -self._t * price,
+                )
 
-            return result
+            return result[()]  # scalar instead of 0-d array for scalar inputs
         elif method == "fdm":
             # This only works if the cost to carry b is zero....
-            if self._b == 0:
+            if _np.all(self._b == 0):
                 return self._greeks.rho(call=call)
             else:
                 raise ValueError(
-- 
2.43.0


From c6e02d945d20bd349ce9a1e3fcb61eda3a771764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 06/10] fix: TIAN tree and spread tree report their own name
 and title

---
 src/finoptions/binomial_tree_options/__init__.py | 3 +++
 src/finoptions/spread_options/bitree3d.py        | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index b2010f1..fbec3b5 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -504,6 +504,9 @@ class TIANBinomialTreeOption(CRRBinomialTreeOption):
     [1] Haug E.G., The Complete Guide to Option Pricing Formulas
     """
 
+    __name__ = "TIANBinomialTreeOption"
+    __title__ = "TIAN Binomial Tree Model"
+
     def _calc_price(self, z, n, type, tree=False):
         dt = self._t / n
         M = _np.exp(self._b * dt)
diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index f89be5a..3f39002 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -745,7 +745,7 @@ class BionomialSpreadOption(BionomialSpreadAllTypes):
     >>> opt.put()
     >>> opt.greeks(call=True)
     """
-    __name__ = "BionomialMinOption"
+    __name__ = "BionomialSpreadOption"
     __title__ = "Binomial Tree Spread Option Model"
 
     def __init__(
-- 
2.43.0


From d2c1e26f5550641356c6f5a374a9a57d98cb911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 07/10] fix: finite difference delta, gamma and lambda of
 Black76Option

The greeks bump the underlying through set_param("S"), which Black76Option
rejected with a TypeError because its parameter is called FT.
---
 src/finoptions/vanillaoptions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 22e89bf..872ae98 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -579,6 +579,10 @@ class Black76Option(GBSOption):
         None
         """
 
+        # the finite difference greeks bump the underlying as "S"
+        if x == "S":
+            x = "FT"
+
         tmp = self.get_params()
         tmp[x] = value
 
-- 
2.43.0


From 96313f32c3bace8cf89c4c91ad897b24aeb7b7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 08/10] fix: trinomial and spread trees reject unknown exercise
 and option types

An unknown exercise style priced silently: the spread tree as european, the
trinomial tree without any discounting. An unknown spread type gave nan.
---
 src/finoptions/binomial_tree_options/__init__.py | 2 ++
 src/finoptions/spread_options/bitree3d.py        | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index fbec3b5..e2db1e2 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -630,6 +630,8 @@ class TrinomialTreeOption(CRRBinomialTreeOption):
                     OptionValue[i] = self._euro(i, OptionValue, Df, pu, pd, pm)
                 elif type == "american":
                     OptionValue[i] = self._amer(i, j, OptionValue, Df, pu, pd, pm, self._K, d, self._S, u, z)
+                else:
+                    raise ValueError(f"unknown exercise type {type!r}")
                 # fmt: on
                 tr = _np.append(tr, OptionValue[i])
 
diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index 3f39002..995142c 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -160,7 +160,9 @@ class BionomialSpreadAllTypes(_Option):
 
     def _calc_price(self, z, n, otype, tree):
         # fmt: off
-        
+        if otype not in ("european", "american"):
+            raise ValueError(f"unknown exercise type {otype!r}")
+
         OptionValue = _np.zeros((n+2,n+2))
 
         for j in range(0,n+1):
@@ -222,6 +224,8 @@ class BionomialSpreadAllTypes(_Option):
             return _np.maximum(0, z*((Q1*S1) / (Q2*S2) - K))
         elif option == 9: # Product option
             return _np.maximum(0, z*((Q1*S1 * Q2*S2) - K))
+        else:
+            raise ValueError(f"unknown option type {option!r}")
         
     def call(self, tree: bool = False):
         """
-- 
2.43.0


From 9be7a25fff3ca8a04b19aab3e74520777e4fe2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 09/10] fix: keep the Barone-Adesi-Whaley seed price between
 the strike and its perpetual limit

The seed left that range for strongly negative (call) or positive (put)
carry, the iteration turned into nan and the call returned S - K < 0
or the put nan.
---
 src/finoptions/basic_american_options/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 50b60bc..48846b2 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -413,7 +413,7 @@ class BAWAmericanApproxOption(_Option):
             * self._K
             / (Su - self._K)
         )
-        Si = self._K + (Su - self._K) * (1 - _np.exp(h2))
+        Si = self._K + (Su - self._K) * (1 - _np.exp(min(h2, 0)))
         X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
@@ -474,7 +474,7 @@ class BAWAmericanApproxOption(_Option):
             * self._K
             / (self._K - Su)
         )
-        Si = Su + (self._K - Su) * _np.exp(h1)
+        Si = Su + (self._K - Su) * _np.exp(min(h1, 0))
         X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
-- 
2.43.0


From 40a30ff51160991b5b7d639c416869b22ad8a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 10/10] fix: Roll-Geske-Whaley price is the European one when
 the critical price is out of reach, instead of a ValueError

---
 src/finoptions/basic_american_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 48846b2..c5866fe 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -134,7 +134,7 @@ class RollGeskeWhaleyOption(_Option):
             result = _GBSOption(
                 Sx, self._K, self._t, self._r, b=self._r, sigma=self._sigma
             ).call()
-            raise ValueError("HighS > big setting")
+            return result
 
         LowS = 0
         I = HighS * 0.5
-- 
2.43.0

