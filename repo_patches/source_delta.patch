From 22d1416b5ea9d917647d4fc36f28f0f58dc8259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 01/65] fix: garman_kohlhagen_price numerical_greeks=True
 always raised KeyError

The flag was overwritten by a DataFrame while the results were written to a missing key.
---
 frm/pricing_engine/garman_kohlhagen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 0ad0f8e..e7cb11f 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -138,7 +138,7 @@ def garman_kohlhagen_price(
 
 
     if numerical_greeks:
-        numerical_greeks = pd.DataFrame()
+        results['numerical_greeks'] = pd.DataFrame()
 
         Δ_shift = 1 / 100  # 1% shift
         σ_shift = 1 / 100  # 1% shift
@@ -161,7 +161,7 @@ def garman_kohlhagen_price(
         # and S0 is the fx spot price (whose units is DOM/FOR)
         # To get the Δ % applicable to the foreign currency notional multiply the below by S0.
         results['numerical_greeks']['spot_delta'] = (X_S_plus - X_S_minus) / (2 * S0 * Δ_shift)
-        results['numerical_greeks']['forward_delta'] = numerical_greeks['spot_delta'] / np.exp(-r_f * tau)
+        results['numerical_greeks']['forward_delta'] = results['numerical_greeks']['spot_delta'] / np.exp(-r_f * tau)
 
         # Vega, ν, is the change in an options price for a small change in the volatility input
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
-- 
2.43.0


From e198a074825e6aa66757344e869f27514fff1686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 02/65] fix: garman_kohlhagen analytical theta sign of the
 carry terms for puts and discounting of the decay term

---
 frm/pricing_engine/garman_kohlhagen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index e7cb11f..9ff3d64 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -121,9 +121,9 @@ def garman_kohlhagen_price(
         results['analytical_greeks']['vega'] = analytical_formula * 0.01 # normalised to 1% change
 
         # Per market convention, theta is normalised to the price decay for 1 calendar day.
-        analytical_formula = -(S0*np.exp(-r*tau)*norm.pdf(d1 * cp)*σ)/(2*np.sqrt(tau)) \
-            + q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
-            - r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
+        analytical_formula = -(S0*np.exp(-q*tau)*norm.pdf(d1 * cp)*σ)/(2*np.sqrt(tau)) \
+            + cp * q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
+            - cp * r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
         results['analytical_greeks']['theta'] = analytical_formula * 1/365.25 # normalised to 1 calendar day
 
         # In practice, gamma is  normalised to measure the change in Δ, for a 1% change in the underlying assets price.
-- 
2.43.0


From 8a03f12866405e3b8f067210ef5cc982c0e20e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 03/65] fix: garman_kohlhagen analytical rho discounts at the
 domestic rate and is negative for puts

---
 frm/pricing_engine/garman_kohlhagen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 9ff3d64..3ef3e43 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -133,7 +133,7 @@ def garman_kohlhagen_price(
 
         # In practice, Rho is normalised to measure the change in price for a 1% change in the underlying interest rate.
         # Hence, we have multiplied the analytical formula result by 0.01 (i.e. 1%)
-        analytical_formula = K * tau * np.exp(-q * tau) * norm.cdf(cp * d2)
+        analytical_formula = cp * K * tau * np.exp(-r * tau) * norm.cdf(cp * d2)
         results['analytical_greeks']['rho'] = analytical_formula * 0.01
 
 
-- 
2.43.0


From 6f5bb59b6f2971064e123ff30151867bfcc6fc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 04/65] fix: garman_kohlhagen numerical rho bumped the
 volatility and shifted the rate the same way on both sides

---
 frm/pricing_engine/garman_kohlhagen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 3ef3e43..3cca38c 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -187,8 +187,11 @@ def garman_kohlhagen_price(
 
         # Rho, ρ, is the rate at which the price of an option changes relative to a change in the interest rate.
         # This formulae will yield meaningfully different results on whether the forward rate is an input (or if it is calculated from the interest rate differential)
-        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ+σ_shift, F=F)['price']
-        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ-σ_shift, F=F)['price']
+        # If the forward rate is an input, the domestic rate is implied from it, so the domestic rate shift is applied to the forward.
+        F_ρ_plus = F * np.exp(ρ_shift * tau) if F is not None else None
+        F_ρ_minus = F * np.exp(-ρ_shift * tau) if F is not None else None
+        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d+ρ_shift, r_f=r_f, cp=cp, K=K, vol=σ, F=F_ρ_plus)['price']
+        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d-ρ_shift, r_f=r_f, cp=cp, K=K, vol=σ, F=F_ρ_minus)['price']
         results['numerical_greeks']['rho'] = (X_ρ_plus - X_ρ_minus) / 2
 
     return results
-- 
2.43.0


From c665a4f8447795cf309d7d1a1856a57b78740f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 05/65] fix: premium-adjusted strike of a -0.5 delta was
 overwritten when solved alongside other deltas

---
 frm/pricing_engine/garman_kohlhagen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 3cca38c..9086dd6 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -290,7 +290,7 @@ def garman_kohlhagen_solve_strike_from_delta(
                        
         if np.any(mask_not_atm):
             for i in range(len(Δ)):
-                if Δ[i] != 0.5:
+                if mask_not_atm[i]:
                     # For premium adjusted quotes the strike must be solved numerically. Refer to [1] for full details.
 
                     def solve_delta(K_):
-- 
2.43.0


From e9e71a828af742044107dfaa3492148b38a5d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 06/65] fix: premium-adjusted call strike lower bound ignored
 the market forward

---
 frm/pricing_engine/garman_kohlhagen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 9086dd6..d63a725 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -317,7 +317,7 @@ def garman_kohlhagen_solve_strike_from_delta(
                         # To avoid this, we solve a lower bound, 'K_min' to guarantee we get the correct solution in the numerical solver.
                         # The lower bound is the 'maximum' Δ, hence we numerically solve the maximum Δ
                         def solve_k_lower_bound(K): # TODO test and remove cp, F
-                            d1 = (np.log(S0 / K) + (r_d - r_f + 0.5 * σ[i]**2) * tau) / (σ[i] * np.sqrt(tau))
+                            d1 = (np.log(F / K) + 0.5 * σ[i]**2 * tau) / (σ[i] * np.sqrt(tau))
                             d2 = d1 - σ[i] * np.sqrt(tau)
                             return σ[i] * np.sqrt(tau) * norm.cdf(d2) - norm.pdf(d2)
                         
-- 
2.43.0


From 3f7118c00ba93967931a040e8a843fd8f0e88a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 07/65] fix: garman_kohlhagen_price raised IndexError for a
 scalar time to expiry with an array of strikes

---
 frm/pricing_engine/garman_kohlhagen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index d63a725..928fe20 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -80,7 +80,10 @@ def garman_kohlhagen_price(
     assert np.all(np.isin(cp, [1, -1])), cp
     assert cp.shape == σ.shape
     assert cp.shape == K.shape
-    
+
+    # Broadcast to a common shape, as the time to expiry masks below index arrays of the option price's shape
+    S0, tau, r_d, r_f, cp, K, σ = np.broadcast_arrays(S0, tau, r_d, r_f, cp, K, σ)
+
     if F is not None: 
         # Use market forward rate and imply the currency basis-adjusted domestic interest rate
         F = np.atleast_1d(F).astype(float)
-- 
2.43.0


From ec61ba5a8e6020c6d68200e59fe3980708564930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 08/65] fix: black76/bachelier intrinsic_time_split raised
 IndexError for a scalar expiry with an array of strikes

---
 frm/pricing_engine/black76_bachelier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index b3c0a6a..6aa34a3 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -75,6 +75,7 @@ def black76_price(
     assert len(shapes) in [1, 2]
     if len(shapes) == 2:
         assert (1,) in shapes
+    F, tau, cp, K, σB, ln_shift, annuity_factor = np.broadcast_arrays(F, tau, cp, K, σB, ln_shift, annuity_factor)
 
     F = F + ln_shift
     K = K + ln_shift
@@ -245,6 +246,7 @@ def bachelier_price(
     assert len(shapes) in [1, 2]
     if len(shapes) == 2:
         assert (1,) in shapes
+    F, tau, cp, K, σN, annuity_factor = np.broadcast_arrays(F, tau, cp, K, σN, annuity_factor)
 
     # Price per Bachelier formula
     d = (F - K) / (σN * np.sqrt(tau))
-- 
2.43.0


From e08030d50e8b79e9a71deb2e82400851b2a7ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 09/65] fix: black76/bachelier intrinsic value ignored the
 annuity factor

---
 frm/pricing_engine/black76_bachelier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 6aa34a3..8b709de 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -90,7 +90,7 @@ def black76_price(
     # Intrinsic / time value split
     if intrinsic_time_split:
         intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
+        intrinsic[tau>0] = (annuity_factor * np.maximum(0, cp * (F - K)))[tau>0]
         intrinsic[tau==0] = X[tau==0]
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
@@ -257,7 +257,7 @@ def bachelier_price(
     # Intrinsic / time value split
     if intrinsic_time_split:
         intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
+        intrinsic[tau>0] = (annuity_factor * np.maximum(0, cp * (F - K)))[tau>0]
         intrinsic[tau==0] = X[tau==0]
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
-- 
2.43.0


From 02e11f7018967354cc9661c2c04e88fda6a9d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 10/65] fix: black76 numerical greeks applied the log-normal
 shift twice

---
 frm/pricing_engine/black76_bachelier.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 8b709de..853e564 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -106,13 +106,14 @@ def black76_price(
 
     if numerical_greeks:
         results['numerical_greeks'] = pd.DataFrame()
+        # F and K already include the log-normal shift, hence ln_shift=0 in the revaluations below.
 
         # Delta, Δ, is the change in an option's price for a small change in the underlying assets (forward) price.
         # Δ := ∂X/∂F ≈ (X(F_plus) − X(F_minus)) / (F_plus - F_minus)
         Δ_shift = 0.01
-        results_F_plus = black76_price(F=F*(1+Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        results_F_plus = black76_price(F=F*(1+Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=0,
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_F_minus = black76_price(F=F*(1-Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        results_F_minus = black76_price(F=F*(1-Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=0,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['delta'] = (results_F_plus['price'] - results_F_minus['price']) / (2 * F * Δ_shift)
 
@@ -120,9 +121,9 @@ def black76_price(
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
         # We divide by 0.01 (1%) to normalise the vega to a 1% change in the volatility input, per market convention.
         σ_shift = 0.01
-        results_σ_plus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln+σ_shift, ln_shift=ln_shift,
+        results_σ_plus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln+σ_shift, ln_shift=0,
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_σ_minus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln-σ_shift, ln_shift=ln_shift,
+        results_σ_minus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln-σ_shift, ln_shift=0,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['vega'] = (results_σ_plus['price'] - results_σ_minus['price']) / (2 * (σ_shift / 0.01))
 
-- 
2.43.0


From 54e86a65c6f3722e0f337b929b46ea9a9753689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 11/65] fix: bachelier theta was not normalised to one calendar
 day

---
 frm/pricing_engine/black76_bachelier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 853e564..2dff58f 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -272,7 +272,7 @@ def bachelier_price(
         results['analytical_greeks']['vega'] = np.sqrt(tau) * norm.pdf(cp * d) * annuity_factor * 0.0001
 
         # Normalised to 1 calendar day.
-        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor / (1/365.25)
+        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor / 365.25
 
     return results
 
-- 
2.43.0


From 69a022611bd82b2fa56fb5f396193a5671269e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 12/65] fix: normal_vol_to_black76_sln discarded the
 at-the-money analytical result

---
 frm/pricing_engine/black76_bachelier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 2dff58f..4d80a90 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -465,7 +465,7 @@ def normal_vol_to_black76_sln(
     ) -> float:
     # If the forward and strike are equal, we use an analytical solution from equating the Black76 & Bachelier formulae
     if abs(F - K) < 1e-10:
-        normal_vol_atm_to_black76_sln_atm(F=F, tau=tau, vol_n_atm=vol_n, ln_shift=ln_shift)
+        return normal_vol_atm_to_black76_sln_atm(F=F, tau=tau, vol_n_atm=vol_n, ln_shift=ln_shift)
 
     # The solve is invariant to the risk-free rate or the call/put perspective.
     cp = 1
-- 
2.43.0


From b9142f792b157723ada6836ad252fba3e17b44bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 13/65] fix: SABR smile fit searched beta outside its valid
 range [0, 1]

---
 frm/pricing_engine/sabr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index f084f74..602a7ee 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -245,7 +245,7 @@ def fit_sabr_params_to_sln_smile(tau: float,
     # rho has a valid range of -1≤ρ≤1
     # volvol has a valid range of 0<v≤∞
     x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-    bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(-1.0, 1.0), (-1.0, 1.0), (0.0001, None)]
+    bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-1.0, 1.0), (0.0001, None)]
     res = scipy.optimize.minimize(fun=lambda param: vol_sse(param), x0=x0, bounds=bounds)
 
     if res.success:
-- 
2.43.0


From 266d5dd2a7becb887f5341442e1dca53f6e4beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 14/65] fix: fit_sabr_params_to_sln_smile raised TypeError when
 the log-normal shift was left at its default

---
 frm/pricing_engine/sabr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index 602a7ee..5b01b5e 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -190,7 +190,7 @@ def fit_sabr_params_to_sln_smile(tau: float,
                                  F: float,
                                  K: NDArray[float],
                                  vols_sln: NDArray[float],
-                                 ln_shift: float=None,
+                                 ln_shift: float=0.0,
                                  beta_overide: Optional[float]=None)-> tuple:
     """
     Calibrates SABR parameters to a volatility smile of European option prices using the Hagan 2002 (lognormal) SABR model and the Black76 formula.
-- 
2.43.0


From 5435205a8bb811edc3eb54eb66b9eb6340b8dde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 15/65] fix: normal_corr used the transposed Cholesky factor,
 so the variates did not have the requested correlation

---
 frm/pricing_engine/monte_carlo_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index 004003c..9bdd7e1 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -77,7 +77,7 @@ def normal_corr(C: np.array,
     np.ndarray: Correlated pseudo random normal variates.
     """    
     
-    M = np.linalg.cholesky(C).T
+    M = np.linalg.cholesky(C)
     return (M @ rand_nbs.T).T
 
 
-- 
2.43.0


From 6d8b84d385d60ab18df420e549676a236be45608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 16/65] fix: generate_rand_nbs with antithetic variates dropped
 a simulation and mispaired for an odd number of simulations

---
 frm/pricing_engine/monte_carlo_generic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index 9bdd7e1..265a623 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -56,7 +56,8 @@ def generate_rand_nbs(nb_steps: int,
         rand_nbs = np.concatenate([rand_nbs_normal, rand_nbs_antithetic_variate], axis=2)
 
         # Reindex to pair normal with antithetic variates
-        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_pairs)).flatten()
+        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_simulations - nb_pairs)).flatten()
+        idx = np.append(idx, np.arange(nb_pairs, nb_simulations - nb_pairs)) # The unpaired draw, if the number of simulations is odd
         rand_nbs = rand_nbs[:, :, idx]
     else:    
         rand_nbs = np.random.normal(0, 1, (nb_steps, nb_rand_vars, nb_simulations))
-- 
2.43.0


From fc188814502ba24460f06a2c61acd5ee43e7a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 17/65] fix: simulate_gbm_path did not broadcast drift and
 volatility per underlying

---
 frm/pricing_engine/geometric_brownian_motion.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/geometric_brownian_motion.py b/frm/pricing_engine/geometric_brownian_motion.py
index 4676e87..e98dbf1 100644
--- a/frm/pricing_engine/geometric_brownian_motion.py
+++ b/frm/pricing_engine/geometric_brownian_motion.py
@@ -77,12 +77,14 @@ def simulate_gbm_path(initial_px: np.array,
 
     # Initialise shape and set initial value of underlying(s)
     x = np.zeros((rand_nbs.shape[0]+1, rand_nbs.shape[1], rand_nbs.shape[2]))
-    x[0, :, :] = initial_px
+    x[0, :, :] = initial_px.T
 
     # Simulate per geometric brownian motion process
     for i in range(0, nb_timesteps):
-        x[i+1, :, :] = x[i, :, :] * np.exp((drift[i, :] - 0.5 * (forward_volatility[i, :] ** 2)) *
-                                           timestep_length[i] + forward_volatility[i, :] * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
+        drift_i = drift[i, :].reshape(-1, 1) # column vector, so that it broadcasts over the simulations of each underlying
+        vol_i = forward_volatility[i, :].reshape(-1, 1)
+        x[i+1, :, :] = x[i, :, :] * np.exp((drift_i - 0.5 * (vol_i ** 2)) *
+                                           timestep_length[i] + vol_i * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
 
     return x
 
-- 
2.43.0


From 27f3e9ef1e70d0e312a95d6ab5267b82795463e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 18/65] fix: forward_volatility crashed for equal scalar times,
 let decreasing times pass when another pair was equal

---
 frm/pricing_engine/volatility_generic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/volatility_generic.py b/frm/pricing_engine/volatility_generic.py
index 1c91c05..72028d2 100644
--- a/frm/pricing_engine/volatility_generic.py
+++ b/frm/pricing_engine/volatility_generic.py
@@ -36,12 +36,14 @@ def forward_volatility(t1: float | np.ndarray,
     """
 
     tau = t2 - t1
-    if np.any(tau == 0):
-        mask = tau == 0
-        warnings.warn(f"t2 and t1 are equal. NaN will be returned for these values: t1 {t1[mask]}, t2 {t2[mask]}")
-    elif np.any(tau < 0):
+    if np.any(tau < 0):
         raise ValueError("t2 is less than t1.")
 
+    mask = tau == 0
+    if np.any(mask):
+        warnings.warn(f"t2 and t1 are equal. NaN will be returned for these values: t1 {np.broadcast_to(t1, np.shape(mask))[mask]}")
+        tau = np.where(mask, np.nan, tau)
+
     var_t1_t2 = (vol_t2 ** 2 * t2 - vol_t1 ** 2 * t1) / tau
     if np.any(var_t1_t2 < 0):
         raise ValueError("Negative value encountered under square root.")
-- 
2.43.0


From 907e8b1c3a0ce7f390243019a0e1e78729e296b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 19/65] fix: flat_forward_interp raised AttributeError for
 scalar inputs

---
 frm/pricing_engine/volatility_generic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frm/pricing_engine/volatility_generic.py b/frm/pricing_engine/volatility_generic.py
index 72028d2..bf661e0 100644
--- a/frm/pricing_engine/volatility_generic.py
+++ b/frm/pricing_engine/volatility_generic.py
@@ -73,6 +73,10 @@ def flat_forward_interp(t1: float | np.ndarray,
     - If t is outside the range [t1, t2], the function will not compute interpolation and will use the input boundaries.
     - Assumes a flat forward interpolation model, where volatilities are averaged in a time-weighted manner.
     """
+    if np.ndim(t1) == 0 and np.ndim(vol_t1) == 0:
+        vol_t12 = forward_volatility(t1, vol_t1, t2, vol_t2) if t1 != t2 else 0.0
+        return np.sqrt((vol_t1 ** 2 * t1 + vol_t12 ** 2 * (t - t1)) / t)
+
     vol_t12 = np.zeros_like(vol_t1)
     mask = (t1 != t2).flatten()
     vol_t12[mask] = forward_volatility(t1[mask], vol_t1[mask], t2[mask], vol_t2[mask])
-- 
2.43.0


From 20a2b3896344c11310ec369a9e6bdcc06677e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 20/65] fix: Lewis-Lipton Heston integrand used the mean
 reversion speed instead of the integration variable

---
 frm/pricing_engine/heston.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 0f8580c..588b402 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -700,8 +700,8 @@ def heston_lipton_vanilla_european_integral(v, S0, tau, r, q, K, var0, vv, kappa
     zeta_term = v**2 * vv**2 * (1 - rho**2) + 2j * v * vv * rho * kappa_hat + kappa_hat**2 + vv**2 / 4
     zeta = np.sqrt(zeta_term)
 
-    psi_plus = - (1j * kappa * rho * vv + kappa_hat) + zeta
-    psi_minus = (1j * kappa * rho * vv + kappa_hat) + zeta
+    psi_plus = - (1j * v * rho * vv + kappa_hat) + zeta
+    psi_minus = (1j * v * rho * vv + kappa_hat) + zeta
 
     numerator = psi_minus + psi_plus * np.exp(-zeta * tau)
     denominator = 2 * zeta
-- 
2.43.0


From 0e6e21bf1c32f7936d6ea9366a4f24426e3482e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 21/65] fix: heston_cosine_price_vanilla_european without
 put-call parity raised UnboundLocalError unless both calls and puts were
 priced

---
 frm/pricing_engine/heston.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 588b402..ac35e11 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -645,8 +645,10 @@ def heston_cosine_price_vanilla_european(S0, tau, r, q, cp, K, var0, vv, kappa,
         if (cp == -1).any():
             put_px = K * np.multiply(Fk, Uk_put).sum(axis=0) * np.exp(-r * tau)
 
-    result[cp == 1] = call_px[cp == 1]
-    result[cp == -1] = put_px[cp == -1]
+    if (cp == 1).any():
+        result[cp == 1] = call_px[cp == 1]
+    if (cp == -1).any():
+        result[cp == -1] = put_px[cp == -1]
 
     return result
 
-- 
2.43.0


From 7ac21d1c251e8528a9811e835f1505a420ddcba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 22/65] fix: Heston simulation returned all-zero paths for an
 unknown method

---
 frm/pricing_engine/heston.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index ac35e11..18da1a8 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -770,6 +770,9 @@ def heston_simulate_scalar(
     """
 
     assert rand_nbs.shape[1] == 2
+    if method not in ('quadratic_exponential', 'euler_with_absorption_of_volatility_process',
+                      'euler_with_reflection_of_volatility_process'):
+        raise ValueError(f"'method' is invalid: {method}")
     nb_timesteps = rand_nbs.shape[0]
     dt = tau / nb_timesteps
     x = np.zeros((nb_timesteps + 1, rand_nbs.shape[1]))
@@ -876,6 +879,9 @@ def heston_simulate(
      """
 
     assert rand_nbs.shape[1] == 2
+    if method not in ('quadratic_exponential', 'euler_with_absorption_of_volatility_process',
+                      'euler_with_reflection_of_volatility_process'):
+        raise ValueError(f"'method' is invalid: {method}")
     nb_timesteps = rand_nbs.shape[0]
     dt = tau / nb_timesteps
     x = np.zeros((nb_timesteps + 1, rand_nbs.shape[1], rand_nbs.shape[2]))
-- 
2.43.0


From 5cf7128682570c61b529806de1e7f674460c6069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 23/65] fix: zero curve with log-linear discount interpolation
 rejected look-ups by years

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index ebe7abd..b90b894 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -328,7 +328,7 @@ class ZeroCurve:
             raise ValueError('Only one input among days, date, or years is allowed.')            
         
         if years is not None:
-            if self.interp_method == 'linear_on_ln_discount':
+            if self.interp_method == ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
                 ln_df_interp = np.interp(x=years, xp=self.pillar_df['years'], fp= np.log(self.pillar_df['discount_factor']))
                 cczr = -1 * ln_df_interp / years
                 discount_factor = np.exp(ln_df_interp)
-- 
2.43.0


From 2168361b083e1a4c8629a41081d97b6eb4f3dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 24/65] fix: zero curve dropped out-of-range dates instead of
 returning NaN or extrapolating, and reordered the results

---
 frm/term_structures/zero_curve.py | 37 +++++++++++--------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index b90b894..d772959 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -365,32 +365,21 @@ class ZeroCurve:
 
             # Check if any of the dates are outside the available data
             min_date = self.daily_df['date'].min()
-            below_range = dates < min_date
-            dates_below = []
-            if any(below_range):
-                bound_date = self.daily_df['date'].min()
-                for i,date in enumerate(dates[below_range]):
-                    print('Date', date.strftime('%Y-%m-%d'), 'is below the min available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_below.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_below.append(bound_date)
-            
             max_date = self.daily_df['date'].max()
+            below_range = dates < min_date
             above_range = dates > max_date
-            dates_above = []
-            if any(above_range):
-                bound_date = self.daily_df['date'].max()
-                for i,date in enumerate(dates[above_range]):
-                    print('Date', date.strftime('%Y-%m-%d'), 'is above the max available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_above.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_above.append(bound_date)
-          
-            in_range = np.logical_and(np.logical_not(below_range),np.logical_not(above_range))
-            cleaned_dates = dates_below + list(dates[in_range].values) + dates_above
-            df = pd.merge(pd.DataFrame(data=cleaned_dates, columns=['date']), self.daily_df, left_on='date',right_on='date', how='left')
+            for date in dates[below_range]:
+                print('Date', date.strftime('%Y-%m-%d'), 'is below the min available data of ' + min_date.strftime('%Y-%m-%d') + msg)
+            for date in dates[above_range]:
+                print('Date', date.strftime('%Y-%m-%d'), 'is above the max available data of ' + max_date.strftime('%Y-%m-%d') + msg)
+
+            # One entry per input date, in the order of the input dates
+            if self.extrap_method == ZeroCurveExtrapMethod.FLAT:
+                cleaned_dates = dates.where(~below_range, min_date).where(~above_range, max_date)
+            else:
+                cleaned_dates = dates.where(~(below_range | above_range), pd.NaT)
+
+            df = pd.merge(pd.DataFrame({'date': cleaned_dates}), self.daily_df, left_on='date',right_on='date', how='left')
             return df    
 
        
-- 
2.43.0


From b30155676e6190deba2daa0c8a8bdae30f616fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 25/65] fix: zero curve with log-linear discount interpolation
 rejected pillars that include the curve date

---
 frm/term_structures/zero_curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index d772959..c29b47e 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -132,6 +132,8 @@ class ZeroCurve:
 
         else:
             match self.interp_method:
+                case ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
+                    pass
                 case ZeroCurveInterpMethod.CUBIC_SPLINE_ON_LN_DISCOUNT:
                     x = pillar_df['years'].to_list()
                     y = np.log(pillar_df['discount_factor']).to_list()
-- 
2.43.0


From 241feed49d6b4610b1496576ac70c896fbc0edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 26/65] fix: zero curve construction added columns to the
 caller's pillar_df

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index c29b47e..a6edec7 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -34,7 +34,7 @@ class ZeroCurve:
     
     def __post_init__(self, compounding_freq):
         
-        pillar_df = self.pillar_df
+        pillar_df = self.pillar_df.copy()
         if compounding_freq is None and 'zero_rate' in pillar_df.columns:
             raise ValueError("'compounding_freq' must be specified zero rates specified in 'pillar_df'")
             
-- 
2.43.0


From 5edade3cf0921c91ffea3dafd22fbfb34f89d02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 27/65] fix: continuous zero rates of a zero curve built from
 simple rates did not match its discount factors

---
 frm/term_structures/zero_curve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index a6edec7..e80014c 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -90,7 +90,11 @@ class ZeroCurve:
             pillar_df['discount_factor'] = compounding_freq.calc_discount_factor_from_zero_rate(
                 years=pillar_df['years'],
                 zero_rate=pillar_df['zero_rate'])
-            pillar_df['cczr'] = compounding_freq.convert_rate_to(zero_rate=pillar_df['zero_rate'], target_compounding_freq=CompoundingFreq.CONTINUOUS)
+            if compounding_freq == CompoundingFreq.SIMPLE:
+                # The continuous equivalent of a simple rate depends on the maturity (at t=0 the two are equal)
+                pillar_df['cczr'] = (np.log1p(pillar_df['zero_rate'] * pillar_df['years']) / pillar_df['years']).where(pillar_df['years'] > 0, pillar_df['zero_rate'])
+            else:
+                pillar_df['cczr'] = compounding_freq.convert_rate_to(zero_rate=pillar_df['zero_rate'], target_compounding_freq=CompoundingFreq.CONTINUOUS)
             pillar_df.drop(columns=['zero_rate'], inplace=True)
         else:
             # Add continuously compounded interest rate for internal use
-- 
2.43.0


From 94c65784d05b52ae2728e57a5215122e670c605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 28/65] fix: ZeroCurve.flat_shift always raised, and did not
 keep the curve's calendar and methods

---
 frm/term_structures/zero_curve.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index e80014c..dd10fdc 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -201,17 +201,18 @@ class ZeroCurve:
        
     def flat_shift(self, 
                    basis_points: float=1) -> 'ZeroCurve':
-        dates = list(self.pillar_df.keys())
-        years = year_frac(self.curve_date, dates, self.day_count_basis)
-        shifted = - np.log(list(self.pillar_df.values)) / years + basis_points / 10000
-        shifted = pd.DataFrame({'date': dates,
-                                'years': years,
-                                'discount_factor':np.exp(-shifted * years)})
-        shifted.loc[0,'discount_factor'] = 1.0 # set the discount factor on the curve date to be 1.0
-        return ZeroCurve(curve_date=self.curve_date, 
+        pillars = self.pillar_df[self.pillar_df['years'] > 0] # the pillar at t=0 is added on construction
+        shifted = pd.DataFrame({'years': pillars['years'],
+                                'discount_factor': pillars['discount_factor'] * np.exp(-basis_points / 10000 * pillars['years'])})
+        if 'date' in pillars.columns:
+            shifted = shifted.drop(columns=['years']).assign(date=pillars['date'])
+        return ZeroCurve(curve_date=self.curve_date,
                          pillar_df=shifted,
-                         day_count_basis=self.day_count_basis)
-                   
+                         day_count_basis=self.day_count_basis,
+                         cal=self.cal,
+                         interp_method=self.interp_method,
+                         extrap_method=self.extrap_method)
+
     def get_forward_rates(self,
                           period_start: Union[pd.Timestamp, np.datetime64, dt.datetime, dt.date, pd.Series, pd.DatetimeIndex],
                           period_end: Union[pd.Timestamp, np.datetime64, dt.datetime, dt.date, pd.Series, pd.DatetimeIndex],
-- 
2.43.0


From 4c6e9b944f93759113c6d2cf23de425df437e509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 29/65] fix: instantaneous forward rate of a log-linear zero
 curve silently returned None

---
 frm/term_structures/zero_curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index dd10fdc..52d622f 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -297,6 +297,7 @@ class ZeroCurve:
         elif self.interp_method == ZeroCurveInterpMethod.CUBIC_SPLINE_ON_LN_DISCOUNT:
             ln_discount_1st_deriv = splev(x=years, tck=self.cubic_spline_definition, der=1)
             return -ln_discount_1st_deriv
+        raise ValueError(f"Instantaneous forward rates are not available for interpolation method {self.interp_method}")
 
 
     def get_discount_factors(self,
-- 
2.43.0


From 0e1d469430d3c412f7e45594e87be3405b962868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 30/65] fix: resolve_fx_curve_dates raised TypeError when curve
 date, spot date and spot offset were all given

---
 frm/utils/tenor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index 368d590..72679fd 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -127,7 +127,7 @@ def resolve_fx_curve_dates(
 
     if curve_date is not None and spot_date is not None and spot_offset is not None:
         # All three dates are specified, check for consistency
-        check_day_offset_consistency(date=curve_date, offset_date=spot_date, offset=spot_offset, busdaycal=cal)
+        check_day_offset_consistency(date=curve_date, offset_date=spot_date, day_offset=spot_offset, busdaycal=cal)
     elif spot_offset is None and curve_date is not None and spot_date is not None:
         # Spot offset is not specified, calculate it based on curve date and spot date
         spot_offset = calc_implied_business_day_offset(curve_date, spot_date, cal)
-- 
2.43.0


From f94141806220af49a56136cc1236e7ab7cefc606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 31/65] fix: implied business day offset rejected every offset
 date after the date

---
 frm/utils/tenor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index 72679fd..e75f1dd 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -107,14 +107,14 @@ def calc_implied_business_day_offset(
         date: pd.Timestamp,
         offset_date: pd.Timestamp,
         cal: np.busdaycalendar) -> int:
-    assert date >= offset_date, "date must be greater than or equal to offset_date"
+    assert date <= offset_date, "date must be less than or equal to offset_date"
 
     offset = 0
     while date < offset_date:
         offset += 1
         date += pd.DateOffset(days=1)
         date_np = date.to_numpy().astype('datetime64[D]')
-        date = np.busday_offset(date_np, offsets=0, roll='following', busdaycal=cal)
+        date = pd.Timestamp(np.busday_offset(date_np, offsets=0, roll='following', busdaycal=cal))
     return offset
 
 
-- 
2.43.0


From 3a590d051f44672361cfb4679e6231d3d841f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 32/65] fix: resolve_fx_curve_dates overrode the spot offset
 given by the caller

---
 frm/utils/tenor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index e75f1dd..cd22ad7 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -131,7 +131,7 @@ def resolve_fx_curve_dates(
     elif spot_offset is None and curve_date is not None and spot_date is not None:
         # Spot offset is not specified, calculate it based on curve date and spot date
         spot_offset = calc_implied_business_day_offset(curve_date, spot_date, cal)
-    else:
+    elif spot_offset is None:
         # Only one of {curve_date, spot_date} are specified, get spot_offset per market convention from ccy_pair
         spot_offset = get_fx_spot_day_offset(ccy_pair)
 
-- 
2.43.0


From 1fdc3fc29482692ed1e6c06dc1d973f8c140d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 33/65] fix: delivery date of an FX pillar given by its
 fixing/expiry date raised AttributeError and was offset backwards

---
 frm/term_structures/fx_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 8f26775..e6daf6e 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -40,8 +40,8 @@ def fx_term_structure_helper(df: pd.DataFrame,
         if pd.notna(row['delivery_date']):
             pass
         elif pd.notna(row[rate_set_date_str]):
-            rate_set_date_np = row[rate_set_date_str].astype('datetime64[D]')
-            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
+            rate_set_date_np = row[rate_set_date_str].to_numpy().astype('datetime64[D]')
+            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
         elif pd.notna(row['tenor']):
             date_offset = tenor_to_date_offset(row['tenor'])
             rate_set_date = curve_date + date_offset
-- 
2.43.0


From 537fd5b2daa1d5f12df8dd7907ccdcd80eeda317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 34/65] fix: fixing/expiry date of an FX pillar given by its
 delivery date was left missing

---
 frm/term_structures/fx_helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index e6daf6e..f4b9eb4 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -38,7 +38,9 @@ def fx_term_structure_helper(df: pd.DataFrame,
     # 3. Otherwise, calculate the rate-set date and delivery date from the tenor
     for i, row in df.iterrows():
         if pd.notna(row['delivery_date']):
-            pass
+            if pd.isna(row[rate_set_date_str]):
+                delivery_date_np = row['delivery_date'].to_numpy().astype('datetime64[D]')
+                df.at[i,rate_set_date_str] = np.busday_offset(delivery_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
         elif pd.notna(row[rate_set_date_str]):
             rate_set_date_np = row[rate_set_date_str].to_numpy().astype('datetime64[D]')
             df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
-- 
2.43.0


From ab99557885758a635a8f7b1c23626dfe0e255c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 35/65] fix: FX pillars without a tenor column raised KeyError

---
 frm/term_structures/fx_helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index f4b9eb4..9b1df8f 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -21,7 +21,8 @@ def fx_term_structure_helper(df: pd.DataFrame,
                              cal: np.busdaycalendar,
                              rate_set_date_str: str) -> pd.DataFrame:
 
-    df['tenor'] = df['tenor'].apply(clean_tenor)
+    if 'tenor' in df.columns:
+        df['tenor'] = df['tenor'].apply(clean_tenor)
 
     mandatory_columns_at_least_one_of = [['tenor',rate_set_date_str,'delivery_date']]
     for column_set in mandatory_columns_at_least_one_of:
@@ -44,14 +45,14 @@ def fx_term_structure_helper(df: pd.DataFrame,
         elif pd.notna(row[rate_set_date_str]):
             rate_set_date_np = row[rate_set_date_str].to_numpy().astype('datetime64[D]')
             df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
-        elif pd.notna(row['tenor']):
+        elif 'tenor' in df.columns and pd.notna(row['tenor']):
             date_offset = tenor_to_date_offset(row['tenor'])
             rate_set_date = curve_date + date_offset
             rate_set_date_np = rate_set_date.to_numpy().astype('datetime64[D]')
             df.at[i,rate_set_date_str] = np.busday_offset(rate_set_date_np, offsets=0, roll='following',busdaycal=cal)
             df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
         else:
-            raise ValueError("'delivery_date', '{rate_set_date_str}' and 'tenor' are all missing")
+            raise ValueError(f"'delivery_date', '{rate_set_date_str}' and 'tenor' are all missing")
 
     if 'tenor' in df.columns:
         time_column_order = ['tenor'] + [rate_set_date_str,'delivery_date']
-- 
2.43.0


From 2ef6425b1c6ed36e037c1f941044cc38a5dab38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 36/65] fix: FX term structure helpers changed the caller's
 DataFrame

---
 frm/term_structures/fx_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 9b1df8f..eaee506 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -21,6 +21,7 @@ def fx_term_structure_helper(df: pd.DataFrame,
                              cal: np.busdaycalendar,
                              rate_set_date_str: str) -> pd.DataFrame:
 
+    df = df.copy()
     if 'tenor' in df.columns:
         df['tenor'] = df['tenor'].apply(clean_tenor)
 
@@ -71,7 +72,7 @@ def fx_forward_curve_helper(fx_forward_curve_df: pd.DataFrame,
                             spot_offset: int,
                             cal: np.busdaycalendar) -> pd.DataFrame:
 
-    fx_forward_curve_df = convert_column_to_consistent_data_type(fx_forward_curve_df)
+    fx_forward_curve_df = convert_column_to_consistent_data_type(fx_forward_curve_df.copy())
 
     mandatory_columns = ['fx_forward_rate']
     for column in mandatory_columns:
-- 
2.43.0


From b3c356e7083a4bd1c0db36db6c06e4ee1a1d470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 37/65] fix: delta convention warnings treated eurusd as a
 premium-adjusted market

---
 frm/term_structures/fx_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index eaee506..1a13b6c 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -108,7 +108,7 @@ def validate_ccy_pair(ccy_pair):
 
 def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
-    bool_cond = np.logical_and(ccy_pair in ['audusd', 'nzdeur', 'gbpusd', 'nzdusd'],
+    bool_cond = np.logical_and(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd'],
                                df['delta_convention'].str.contains('premium_adjusted'))
     df.loc[bool_cond, 'warnings'] += 'the regular delta is the market delta_convention for this currency pair\n'
     if bool_cond.any():
@@ -118,7 +118,7 @@ def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
     conditions_for_premium_adjusted_delta_convention = [
-        np.full(len(df), np.logical_not(ccy_pair in ['audusd', 'nzdeur', 'gbpusd', 'nzdusd', 'usdaud', 'usdeur', 'usdgbp', 'usdnzd'])),
+        np.full(len(df), np.logical_not(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd', 'usdaud', 'usdeur', 'usdgbp', 'usdnzd'])),
         np.full(len(df), 'usd' in ccy_pair),
         df['delta_convention'].str.contains('regular').values]
     bool_cond = np.logical_and.reduce(conditions_for_premium_adjusted_delta_convention)
-- 
2.43.0


From 72d87007eca3977176661e95579cebedb2417986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 38/65] fix: TermSwapCurve overwrote the forward fixings with
 historical ones and left the past periods missing

---
 frm/term_structures/swap_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/swap_curve.py b/frm/term_structures/swap_curve.py
index 1debf8b..4606339 100644
--- a/frm/term_structures/swap_curve.py
+++ b/frm/term_structures/swap_curve.py
@@ -45,7 +45,7 @@ class TermSwapCurve:
         fixings[mask_future] = forward_fixings
 
         # Get historical fixings
-        mask_historical = period_start >= self.zero_curve.curve_date
+        mask_historical = period_start < self.zero_curve.curve_date
         historical_fixings = self.historical_fixings.index_historical_fixings(
             fixing_dates=period_start[mask_historical])
         fixings[mask_historical] = historical_fixings
-- 
2.43.0


From 210bfcb09c99c0b456a25d7291dd22266e023382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 39/65] fix: RFR coupon rates dropped the days before the first
 fixing within a period and rejected periods ending on a weekend

---
 frm/term_structures/historical_swap_index_fixings.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index 63fbae8..c4009c6 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -37,13 +37,10 @@ class RFRFixings(HistoricalSwapIndexFixings):
         observations_start = period_start
         observations_end = period_end - pd.DateOffset(days=1)
 
-        mask = np.logical_and(self.fixings['date'] >= observations_start.min(),
-                              self.fixings['date'] <= observations_end.max())
-        applicable_fixings = self.fixings.loc[mask,:].sort_values('date', ascending=True).reset_index(drop=True)
-
+        applicable_fixings = self.fixings.sort_values('date', ascending=True).reset_index(drop=True)
 
         if observations_end.max() > applicable_fixings['date'].max() \
-            or observations_end.min() < applicable_fixings['date'].min():
+            or observations_start.min() < applicable_fixings['date'].min():
             raise ValueError('Observation period extends beyond available fixing data.')
 
         coupon_rates = [self._calculate_coupon_rate(s, e, applicable_fixings, cpn_calc_method)
@@ -64,7 +61,8 @@ class RFRFixings(HistoricalSwapIndexFixings):
             return periods_ois_fixings['fixing'].mean()
 
         date_range = pd.date_range(start=observation_start, end=observation_end, freq='D')
-        df = pd.merge_asof(pd.DataFrame({'date': date_range}), periods_ois_fixings, on='date', direction='backward')
+        # The fixing of a non-business day is the preceding one, which can be before the start of the observation period
+        df = pd.merge_asof(pd.DataFrame({'date': date_range}), fixings, on='date', direction='backward')
 
         if method == RFRFixingCalcMethod.DAILY_COMPOUNDED:
             df['daily_interest'] = 1 + df['fixing'] / self.day_count_basis.days_per_year
-- 
2.43.0


From 38af4845c2703e7b64929d1fbb5b740192dab96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 40/65] fix: averaged RFR coupon across the curve date was
 compounded

---
 frm/term_structures/swap_curve.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/swap_curve.py b/frm/term_structures/swap_curve.py
index 4606339..58de291 100644
--- a/frm/term_structures/swap_curve.py
+++ b/frm/term_structures/swap_curve.py
@@ -118,8 +118,12 @@ class RFRSwapCurve:
             period_end=crossover_period_end,
             forward_rate_type=cpn_calc_method)
 
-        crossover_rate = (historical_year_frac * historical_component
-                          + (1 + historical_year_frac * historical_component) * future_year_frac * future_component) \
+        if cpn_calc_method == RFRFixingCalcMethod.DAILY_COMPOUNDED:
+            future_interest = (1 + historical_year_frac * historical_component) * future_year_frac * future_component
+        else:
+            future_interest = future_year_frac * future_component # Averaged rates do not accrue interest on interest
+
+        crossover_rate = (historical_year_frac * historical_component + future_interest) \
                          / (historical_year_frac + future_year_frac)
 
         return crossover_rate
-- 
2.43.0


From 90d1a52a5b2e406f6d68c64b6ab15ceb0d9d6bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 41/65] fix: averaged forward rates of an act/act zero curve
 were NaN

---
 frm/term_structures/zero_curve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 52d622f..1761692 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -241,7 +241,11 @@ class ZeroCurve:
             dates = pd.date_range(start=period_start.min(), end=period_end.max(), freq='D')
             discount_factors = self.get_discount_factors(dates=dates)
             daily_interest_multiplier = discount_factors[:-1] / discount_factors[1:]
-            daily_simple_interest_rate = (daily_interest_multiplier - 1) * self.day_count_basis.days_per_year
+            if self.day_count_basis == DayCountBasis.ACT_ACT:
+                # The number of days per year depends on the date
+                daily_simple_interest_rate = (daily_interest_multiplier - 1) / year_frac(dates[:-1], dates[1:], self.day_count_basis)
+            else:
+                daily_simple_interest_rate = (daily_interest_multiplier - 1) * self.day_count_basis.days_per_year
             dates_np = dates.to_numpy(dtype='datetime64[D]')
             busday_flag = pd.Series(np.is_busday(dates_np, busdaycal=self.cal), index=dates)
             
-- 
2.43.0


From 010b562f4dfebaa063dc362c6cd3e19e21ccc491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 42/65] fix: HullWhite1Factor raised TypeError for a zero curve
 without a pillar at the curve date

---
 frm/pricing_engine/hw1f.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index cd606b5..8c55209 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -42,7 +42,7 @@ class HullWhite1Factor:
         if self.zero_curve.pillar_df['years'].min() == 0:
             self.r0 = float(self.zero_curve.pillar_df['cczr'].iloc[0])
         else:
-            self.r0 = float(self.zero_curve.get_zero_rates(years=1e-8, compounding_freq=CompoundingFreq.CONTINUOUS)[0])
+            self.r0 = float(self.zero_curve.get_zero_rates(years=1e-8, compounding_freq=CompoundingFreq.CONTINUOUS))
 
     def fit_theta(self,
                   dts=(1e-3,1e-4,1e-5,1e-6),
-- 
2.43.0


From 3748afef94455eadae1eaf76ce98ca7334e09ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 43/65] fix: Hull-White optionlet and swaption prices raised
 TypeError (bond option keyword names)

---
 frm/pricing_engine/hw1f.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 8c55209..9322dec 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -305,8 +305,8 @@ class HullWhite1Factor:
 
 
     def price_zero_coupon_bond_option(self,
-                                      option_expiry: float,
-                                      bond_maturity: float,
+                                      expiry_years: float,
+                                      maturity_years: float,
                                       K: float,
                                       cp: int,
                                       t0: float=0):
@@ -336,8 +336,8 @@ class HullWhite1Factor:
 
         σ = self.vol
         α = self.mean_rev_lvl
-        T = np.atleast_1d(option_expiry) # Aligning to the notation in [1]
-        S = np.atleast_1d(bond_maturity) # Aligning to the notation in [1]
+        T = np.atleast_1d(expiry_years) # Aligning to the notation in [1]
+        S = np.atleast_1d(maturity_years) # Aligning to the notation in [1]
         K = np.atleast_1d(K)
         cp = np.atleast_1d(cp)
 
@@ -368,7 +368,7 @@ class HullWhite1Factor:
             price[zero_σ_mask] = np.maximum(cp * (F - K), 0.0)[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
-        price[bond_maturity < option_expiry] = 0.0
+        price[maturity_years < expiry_years] = 0.0
 
         return price
 
-- 
2.43.0


From 4f440bcdc5f40e13be8f3a9274f1ecfd249cb06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 44/65] fix: Hull-White bond option failed when mixing arrays
 with size-one inputs

---
 frm/pricing_engine/hw1f.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 9322dec..4f8f840 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -343,6 +343,7 @@ class HullWhite1Factor:
 
         max_dim = np.maximum.reduce([x.size for x in [T, S, K, cp]])
         assert all((x.size == 1) or (x.size == max_dim) for x in [T, S, K, cp]), "Arrays must be of size 1 or match maximum dimension"
+        T, S, K, cp = np.broadcast_arrays(T, S, K, cp)
 
         if not np.all(S > T):
             warnings.warn("Bond maturities should be after the bond option expiries")
@@ -368,7 +369,7 @@ class HullWhite1Factor:
             price[zero_σ_mask] = np.maximum(cp * (F - K), 0.0)[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
-        price[maturity_years < expiry_years] = 0.0
+        price[S < T] = 0.0
 
         return price
 
-- 
2.43.0


From 0e175c00669b6c67c573cf5065e1e77d77b1c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 45/65] fix: Hull-White bond option at zero volatility was not
 discounted

---
 frm/pricing_engine/hw1f.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 4f8f840..98ad364 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -365,8 +365,7 @@ class HullWhite1Factor:
 
         # Handle zero variance case (set to intrinsic value)
         if np.any(zero_σ_mask):
-            F = P_t_S / P_t_T # forward bond price
-            price[zero_σ_mask] = np.maximum(cp * (F - K), 0.0)[zero_σ_mask]
+            price[zero_σ_mask] = np.maximum(cp * (P_t_S - K * P_t_T), 0.0)[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
         price[S < T] = 0.0
-- 
2.43.0


From e26ad7a46402bd00b565cc6ce3d57a5f83dec216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 46/65] fix: Hull-White theta ignored the zero curve (debug
 branch), so the model did not reprice it

---
 frm/pricing_engine/hw1f.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 98ad364..b8ad9e8 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -135,14 +135,9 @@ class HullWhite1Factor:
         f_t_minus_dt = self.zero_curve.get_instantaneous_forward_rate(years=years-self.dt)
         df_dt = (f_t_plus_dt - f_t_minus_dt) / (2 * self.dt)
 
-        if True:
-            f_t = np.full_like(years, self.r0)
-            return α * f_t + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
-        else:
-
-            return df_dt \
-                   + α * f_t \
-                   + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
+        return df_dt \
+               + α * f_t \
+               + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
 
 
     def get_forward_rate_by_integration(self,t, T):
-- 
2.43.0


From cdf10598e00101727085e412c7f267e26f5c143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 47/65] fix: Hull-White simulation returned zero rates for an
 unknown method

---
 frm/pricing_engine/hw1f.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index b8ad9e8..ff7141d 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -262,6 +262,9 @@ class HullWhite1Factor:
                 # Generate next value
                 R[i + 1, :] = conditional_mean + np.sqrt(conditional_var) * rand_nbs[i, :, :]
 
+        else:
+            raise ValueError(f"Unknown simulation method: {method}. Must be 'euler', 'rk4' or 'exact'.")
+
         # We integrate R over each simulation path, and calculate the cumulative path discount factor from t=0 to t=t.
         # The integration is optimised by being is vectorised and 'cumulative'.
         # By cumulative, we only calculate a periods integration once, and store it for future uses.
-- 
2.43.0


From 4a771347bf3ed2f57f4f485f4eeab9aca03d5886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 48/65] fix: Hull-White swaption dropped the last coupon option
 and summed an outer product of coupons

---
 frm/pricing_engine/hw1f.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index ff7141d..1dfb457 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -691,7 +691,7 @@ class HullWhite1Factor:
         )
 
         # Determine strikes and coefficients for each component bond option
-        coupon_strikes = critical_bond_prices[:-1]
+        coupon_strikes = critical_bond_prices[:len(coupon_payment_times)]
         notional_strike = critical_bond_prices[-1]
 
         # For a payer swaption:
@@ -703,14 +703,12 @@ class HullWhite1Factor:
         cp = -1 if is_payer else 1
 
         # Price the bond options for coupon payments
-        coupon_option_values = np.array([
-            self.price_zero_coupon_bond_option(
-                expiry_years=swaption_expiry,
-                maturity_years=payment_time,
-                K=strike,
-                cp=cp
-            ) for payment_time, strike in zip(coupon_payment_times, coupon_strikes)
-        ])
+        coupon_option_values = self.price_zero_coupon_bond_option(
+            expiry_years=swaption_expiry,
+            maturity_years=coupon_payment_times,
+            K=coupon_strikes,
+            cp=cp
+        )
 
         # Price the bond option for notional payment
         notional_option_value = self.price_zero_coupon_bond_option(
@@ -718,12 +716,12 @@ class HullWhite1Factor:
             maturity_years=notional_payment_time,
             K=notional_strike,
             cp=cp
-        )
+        )[0]
 
         # Sum up the components with their coefficients:
         # 1. Coupon payments: multiply by fixed_rate * year_fraction
         coupon_values = fixed_rate * np.sum(
-            coupon_year_fractions * coupon_option_values
+            np.asarray(coupon_year_fractions) * coupon_option_values
         )
 
         # 2. Add notional exchange
-- 
2.43.0


From 0ccb11921cd2725dd91550cef35f2de95bbce4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 49/65] fix: daily table of a zero curve given pillars by years
 stopped before the last pillar

---
 frm/term_structures/zero_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 1761692..7a7f5ee 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -161,8 +161,8 @@ class ZeroCurve:
         if 'date' in self.pillar_df.columns:
             max_date = max(self.pillar_df['date'])
         else:
-            max_years = int(max(self.pillar_df['years']))
-            max_date = self.curve_date + relativedelta(years=max_years)
+            max_years = max(self.pillar_df['years'])
+            max_date = self.curve_date + relativedelta(years=int(max_years))
             while year_frac(self.curve_date, max_date, self.day_count_basis) < max_years:
                 max_date += dt.timedelta(days=1)
                 
-- 
2.43.0


From de2b3e901463d4e9eb8f8d9da58fd6e642089003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 50/65] fix: HW1F theta fit error always raised as the pillar
 at t=0 was included

---
 frm/pricing_engine/hw1f.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 1dfb457..58b120e 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -77,8 +77,9 @@ class HullWhite1Factor:
 
     def calc_error_for_theta_fit(self, print_results=False):
         """Calculate the basis point error between the pillar zero rates and the theta fit."""
-        years_pillars = self.zero_curve.pillar_df['years'].values
-        cczr_pillars = self.zero_curve.pillar_df['cczr'].values
+        pillar_df = self.zero_curve.pillar_df[self.zero_curve.pillar_df['years'] > 0] # there is no zero rate to recalculate at t=0
+        years_pillars = pillar_df['years'].values
+        cczr_pillars = pillar_df['cczr'].values
 
         cczr_recalcs = np.array([-1*np.log(self.calc_discount_factor_by_solving_ode_1(0, yr))/yr for yr in years_pillars])
         diff_bps = 1e4 * (cczr_pillars - cczr_recalcs)
-- 
2.43.0


From d04ed64b8dad8a4820e861f714796100d5845508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 51/65] fix: HW1F fit_theta left the theta spline of the last
 setting tried instead of the best one

---
 frm/pricing_engine/hw1f.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 58b120e..912a76c 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -73,6 +73,7 @@ class HullWhite1Factor:
         dt, num, _ = results[0]
         self.dt = dt
         self.num = num
+        self.setup_theta()
 
 
     def calc_error_for_theta_fit(self, print_results=False):
-- 
2.43.0


From 837e8008a1cb8bbcb1e13eebc5fb61fbf4c27bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 52/65] fix: schedules with RollConv.UNADJUSTED raised
 ValueError

---
 frm/utils/schedule.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 08f5355..0e84a65 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -88,7 +88,11 @@ class BaseSchedule:
 
         # Apply np.busday_offset only to non-NaT dates
         adjusted_dates = np.empty_like(dates, dtype='datetime64[D]')
-        adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=self.roll_conv.value, busdaycal=self.cal)
+        if self.roll_conv == RollConv.UNADJUSTED and payment_delay == 0:
+            adjusted_dates[valid_dates_mask] = valid_dates
+        else:
+            roll = 'following' if self.roll_conv == RollConv.UNADJUSTED else self.roll_conv.value
+            adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=roll, busdaycal=self.cal)
         adjusted_dates[~valid_dates_mask] = 'NaT'
 
         # Update DataFrame
@@ -460,6 +464,8 @@ def generate_date_schedule(
     """
     
     def busday_offset_timestamp(pd_timestamp, offsets, roll_conv, cal):
+        if roll_conv == RollConv.UNADJUSTED.value:
+            return pd_timestamp
         np_datetime64D = np.array([pd_timestamp]).astype('datetime64[D]')
         rolled_date_np = np.busday_offset(np_datetime64D, offsets=offsets, roll=roll_conv, busdaycal=cal)[0]
         return pd.Timestamp(rolled_date_np)
-- 
2.43.0


From d2f2f834c75e0307f41fb1863565a633d0644331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 53/65] fix: schedules with both stubs given explicitly raised
 ValueError

---
 frm/utils/schedule.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 0e84a65..53c8243 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -291,8 +291,6 @@ def make_schedule(
                 first_stub  = Stub.NONE
             elif last_stub == Stub.DEFAULT:
                 last_stub = Stub.NONE
-            else:
-                raise ValueError("Unexpected logic branch - please raise GitHub issue")
 
             if last_stub == Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-- 
2.43.0


From 3fa0387a7fd22dc3bcee3852a496d9124f92ecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 54/65] fix: schedules shorter than one period raised with a
 long stub or an explicit stub date

---
 frm/utils/schedule.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 53c8243..3d4593e 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -294,12 +294,12 @@ def make_schedule(
 
             if last_stub == Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 1:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             elif first_stub == Stub.NONE and last_stub != Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 1:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub in [Stub.SHORT, Stub.LONG] and last_stub in [Stub.SHORT, Stub.LONG]:
@@ -333,7 +333,7 @@ def make_schedule(
                 elif first_period_end == d2_backward[0]:
                     direction.append('backward')
                     first_stub = Stub.SHORT
-                elif first_period_end == d2_backward[1]:
+                elif len(d2_backward) > 1 and first_period_end == d2_backward[1]:
                     direction.append('backward')
                     first_stub = Stub.LONG
                 else:
@@ -348,7 +348,7 @@ def make_schedule(
                 elif last_period_start == d1_forward[-1]:
                     direction.append('forward')
                     last_stub = Stub.SHORT
-                elif last_period_start == d1_forward[-2]:
+                elif len(d1_forward) > 1 and last_period_start == d1_forward[-2]:
                     direction.append('forward')
                     last_stub = Stub.LONG
                 else:
@@ -382,7 +382,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(first_period_end, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = [start_date] + d1
                 d2 = [first_period_end] + d2
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 2:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub != Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
@@ -390,7 +390,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(start_date, last_period_start, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = d1 + [last_period_start]
                 d2 = d2 + [end_date]
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 2:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             else:
@@ -400,13 +400,13 @@ def make_schedule(
                 if first_stub == Stub.NONE:
                     # Forward date generation
                     d1, d2 = d1_forward, d2_forward
-                    if last_stub == Stub.LONG:
+                    if last_stub == Stub.LONG and len(d1) > 2:
                         d1 = d1[:-1]
                         d2 = d2[:-2] + [d2[-1]]
                 elif last_stub == Stub.NONE:
                     # Backward date generation
                     d1, d2 = d1_backward, d2_backward
-                    if first_stub == Stub.LONG:
+                    if first_stub == Stub.LONG and len(d1) > 2:
                         d1 = [d1[0]] + d1[2:]
                         d2 = d2[1:]
                 else:
-- 
2.43.0


From 62c9a616ff5251aa22fe04637e356e1c2f389eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 55/65] fix: schedule ignored one of first_period_end and
 last_period_start when only one of them (or each another way) matched a
 regular schedule

---
 frm/utils/schedule.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 3d4593e..b74a3fe 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -372,7 +372,10 @@ def make_schedule(
                     last_stub = Stub.NONE
 
             # Step 3: Construct the schedules
-            if first_stub == Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
+            if first_period_end is not None and last_period_start is not None \
+                    and (first_stub == Stub.DEFINED_PER_FIRST_PERIOD_END_DATE
+                         or last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE
+                         or len(set(direction)) > 1):
                 # Generate date schedule between first_period_end and last_period_start
                 d1, d2 = generate_date_schedule(first_period_end, last_period_start, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = [start_date] + d1 + [last_period_start]
@@ -397,13 +400,13 @@ def make_schedule(
                 # Don't need to generate any additional schedules
                 assert len(set(direction)) == 1
 
-                if first_stub == Stub.NONE:
+                if first_stub == Stub.NONE and 'forward' in direction:
                     # Forward date generation
                     d1, d2 = d1_forward, d2_forward
                     if last_stub == Stub.LONG and len(d1) > 2:
                         d1 = d1[:-1]
                         d2 = d2[:-2] + [d2[-1]]
-                elif last_stub == Stub.NONE:
+                elif last_stub == Stub.NONE and 'backward' in direction:
                     # Backward date generation
                     d1, d2 = d1_backward, d2_backward
                     if first_stub == Stub.LONG and len(d1) > 2:
-- 
2.43.0


From b1e4de60fb285fe3caefd1e27f402fe73f519c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 56/65] fix: schedules did not roll the user specified dates
 outside the generated part, leaving gaps and overlaps

---
 frm/utils/schedule.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index b74a3fe..9d5b84f 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -415,10 +415,23 @@ def make_schedule(
                 else:
                     raise ValueError("Unexpected logic branch - please raise GitHub issue")
 
+    if roll_user_specified_dates:
+        # Generated dates are already rolled
+        d1 = [busday_offset_timestamp(d, 0, roll_conv.value, cal) for d in d1]
+        d2 = [busday_offset_timestamp(d, 0, roll_conv.value, cal) for d in d2]
+
     schedule = pd.DataFrame({'period_start': d1, 'period_end': d2})
     return schedule
 
 
+def busday_offset_timestamp(pd_timestamp, offsets, roll_conv, cal):
+    if roll_conv == RollConv.UNADJUSTED.value:
+        return pd_timestamp
+    np_datetime64D = np.array([pd_timestamp]).astype('datetime64[D]')
+    rolled_date_np = np.busday_offset(np_datetime64D, offsets=offsets, roll=roll_conv, busdaycal=cal)[0]
+    return pd.Timestamp(rolled_date_np)
+
+
 def generate_date_schedule(
         start_date: pd.Timestamp, 
         end_date: pd.Timestamp, 
@@ -464,13 +477,6 @@ def generate_date_schedule(
           E.g. Wrap with fields with Optional[] and set defaults in function from enum.set_default()
     """
     
-    def busday_offset_timestamp(pd_timestamp, offsets, roll_conv, cal):
-        if roll_conv == RollConv.UNADJUSTED.value:
-            return pd_timestamp
-        np_datetime64D = np.array([pd_timestamp]).astype('datetime64[D]')
-        rolled_date_np = np.busday_offset(np_datetime64D, offsets=offsets, roll=roll_conv, busdaycal=cal)[0]
-        return pd.Timestamp(rolled_date_np)
-    
     def apply_specific_day_roll(pd_timestamp: pd.Timestamp,
                                 specific_day_roll: DayRoll) -> pd.Timestamp:
         if specific_day_roll == DayRoll.UNADJUSTED:
-- 
2.43.0


From 15457f6aa797371facf8336af29b7603a9c2a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 57/65] fix: NotionalSchedule rejected a notional for each
 period

---
 frm/utils/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 9d5b84f..c122847 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -149,9 +149,9 @@ class NotionalSchedule(BaseSchedule):
         if notional_amount.shape == (1,):
             self.df['notional'] = notional_amount[0]
             self.df['notional_payment'] = 0
-        elif notional_amount.shape == self.df.shape[0]:
+        elif notional_amount.shape == (self.df.shape[0],):
             self.df['notional'] = notional_amount
-            self.df['notional_payment'] = notional_amount[:-1] - notional_amount[1:]
+            self.df['notional_payment'] = np.append(notional_amount[:-1] - notional_amount[1:], 0)
         else:
             raise ValueError("Invalid notional_amount shape")
 
-- 
2.43.0


From 038b84fc11de521ceae8a15cc21301d760ce64b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 58/65] fix: add_period_yearfrac raised IndexError without a
 daycount column

---
 frm/utils/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index c122847..fa8bb00 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -127,7 +127,8 @@ class BaseSchedule:
         mask = np.logical_and(self.df['period_start'].notnull(), self.df['period_end'].notnull())
         years = np.full(self.df.shape[0], np.nan)
         years[mask] = year_frac(self.df['period_start'][mask], self.df['period_end'][mask], day_count_basis)
-        self.df.insert(loc=col_index + 2, column='period_yearfrac', value=years)
+        loc = col_index + (2 if 'period_daycount' in self.df.columns else 1)
+        self.df.insert(loc=loc, column='period_yearfrac', value=years)
 
 
 @dataclass
-- 
2.43.0


From 2d31a8d5f7032d6791d870e6186983ba52567bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 59/65] fix: create_date_grid_for_fx_exposures always raised

---
 frm/utils/schedule.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index fa8bb00..95773eb 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -591,23 +591,25 @@ def create_date_grid_for_fx_exposures(curve_date: pd.Timestamp,
     # There is a pototo/potata view on if a cashflow has value on the settlement date. 
     # Our default view is no, it should be in accounts receivable, but this can be toggled. 
     
-    delivery_dates = np.unique(delivery_dates) 
+    delivery_dates = pd.DatetimeIndex(np.unique(delivery_dates))
     max_settlement_date = delivery_dates.max()
     
     if sampling_freq is not None:    
         if sampling_freq == '1d':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 1, 'days', 'forward')
+            date_grid = generate_date_schedule(curve_date, max_settlement_date, PeriodFreq.DAILY, 'forward')
         elif sampling_freq == '1w':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 1, 'weeks', 'forward')
+            date_grid = generate_date_schedule(curve_date, max_settlement_date, PeriodFreq.WEEKLY, 'forward')
         elif sampling_freq == '1m':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 1, 'months', 'forward')
+            date_grid = generate_date_schedule(curve_date, max_settlement_date, PeriodFreq.MONTHLY, 'forward')
         elif sampling_freq == '3m':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 3, 'months', 'forward')    
+            date_grid = generate_date_schedule(curve_date, max_settlement_date, PeriodFreq.QUARTERLY, 'forward')    
         elif sampling_freq == '6m':
-             date_grid = generate_date_schedule(curve_date, max_settlement_date, 6, 'months', 'forward')
+             date_grid = generate_date_schedule(curve_date, max_settlement_date, PeriodFreq.SEMIANNUAL, 'forward')
         elif sampling_freq == '12m':
-             date_grid = generate_date_schedule(curve_date, max_settlement_date, 12, 'months', 'forward') 
-             
+             date_grid = generate_date_schedule(curve_date, max_settlement_date, PeriodFreq.ANNUAL, 'forward') 
+        else:
+            raise ValueError(f"Invalid sampling_freq '{sampling_freq}'")
+
         date_grid = pd.DatetimeIndex([curve_date]).append(pd.DatetimeIndex(date_grid[1]))
         
     elif date_grid_pillar is not None:
@@ -621,14 +623,14 @@ def create_date_grid_for_fx_exposures(curve_date: pd.Timestamp,
             last_day_of_value = delivery_dates
         else: 
             last_day_of_value = delivery_dates - pd.DateOffset(days=1)
-        date_grid = pd.DatetimeIndex(np.concatenate(date_grid.values, last_day_of_value))
+        date_grid = pd.DatetimeIndex(np.concatenate([date_grid.values, last_day_of_value.values]))
 
     elif include_day_after_last_day_of_value:
         if payments_on_value_date_have_value:
             last_day_of_value = delivery_dates + pd.DateOffset(days=1)
         else: 
             last_day_of_value = delivery_dates 
-        date_grid = pd.DatetimeIndex(np.concatenate(date_grid.values, last_day_of_value))
+        date_grid = pd.DatetimeIndex(np.concatenate([date_grid.values, last_day_of_value.values]))
 
     date_grid = date_grid.drop_duplicates().sort_values()
     return date_grid
-- 
2.43.0


From 5297569395d648c112183bfda120fb44ca2658a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 60/65] fix: create_date_grid_for_fx_exposures ignored the day
 after when the last day of value was included too

---
 frm/utils/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 95773eb..c49428d 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -625,7 +625,7 @@ def create_date_grid_for_fx_exposures(curve_date: pd.Timestamp,
             last_day_of_value = delivery_dates - pd.DateOffset(days=1)
         date_grid = pd.DatetimeIndex(np.concatenate([date_grid.values, last_day_of_value.values]))
 
-    elif include_day_after_last_day_of_value:
+    if include_day_after_last_day_of_value:
         if payments_on_value_date_have_value:
             last_day_of_value = delivery_dates + pd.DateOffset(days=1)
         else: 
-- 
2.43.0


From 1c3cd4ffa895e4ed5db62fbd0973339f022bef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 61/65] fix: DayCountBasis.from_value accepts missing values
 and digits only codes such as '30360'

---
 frm/enums/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/enums/utils.py b/frm/enums/utils.py
index 90a4261..df4ca39 100644
--- a/frm/enums/utils.py
+++ b/frm/enums/utils.py
@@ -208,7 +208,9 @@ class DayCountBasis(Enum):
         """Create an enum member from the given value, if valid."""
         
         def specific_cleaning(value):
-            value = value.replace('actual','act')
+            if value is None:
+                return value
+            value = str(value).replace('actual','act') # digits only codes, e.g. '30360', are cleaned to integers
             if value == 'act/365fixed':
                 value = 'act/365'
             return value        
-- 
2.43.0


From 00e629637f27b2d091d25e5524879eb95bfaa607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 62/65] fix: calendars of locales whose name is not upper case
 can be looked up

---
 frm/utils/business_day_calendar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frm/utils/business_day_calendar.py b/frm/utils/business_day_calendar.py
index 8f550fb..c8125be 100644
--- a/frm/utils/business_day_calendar.py
+++ b/frm/utils/business_day_calendar.py
@@ -25,6 +25,10 @@ def get_holidays_object(key):
     elif key in LOCALE_HOLIDAY.keys():
         return LOCALE_HOLIDAY[key]
     else:
+        # Some locales, i.e. 'European_Central_Bank', are not setup in upper case
+        for locale in LOCALE_HOLIDAY.keys():
+            if locale.upper() == key.upper():
+                return LOCALE_HOLIDAY[locale]
         raise ValueError(f"Holidays not setup for {key}")
 
 
-- 
2.43.0


From 4da8c5c2d51b5f34935e7355a783779ef174b4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 63/65] fix: FX curve and volatility quote rows dated by
 delivery or fixing date no longer need a tenor when other rows have one

---
 frm/term_structures/fx_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 1a13b6c..6e77354 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -23,7 +23,7 @@ def fx_term_structure_helper(df: pd.DataFrame,
 
     df = df.copy()
     if 'tenor' in df.columns:
-        df['tenor'] = df['tenor'].apply(clean_tenor)
+        df['tenor'] = df['tenor'].apply(lambda tenor: clean_tenor(tenor) if pd.notna(tenor) else tenor)
 
     mandatory_columns_at_least_one_of = [['tenor',rate_set_date_str,'delivery_date']]
     for column_set in mandatory_columns_at_least_one_of:
-- 
2.43.0


From 12f7a0bc5a85af72b3b69475f97da0560cdc31fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 64/65] fix: FXVolatilitySurface leaves the caller's vol_quotes
 frame unchanged

Quote columns were renamed, dropped and added in place on the frame passed in.
---
 frm/term_structures/fx_volatility_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/fx_volatility_surface.py b/frm/term_structures/fx_volatility_surface.py
index 970ba78..94f5bc5 100644
--- a/frm/term_structures/fx_volatility_surface.py
+++ b/frm/term_structures/fx_volatility_surface.py
@@ -90,7 +90,7 @@ class FXVolatilitySurface:
         self.fx_spot_rate = self.fx_forward_curve_df.loc[mask, 'fx_forward_rate'].values[0]
 
         # Process volatility input and setup pillar dataframe and daily helper dataframe
-        vol_quotes = clean_vol_quotes_column_names(vol_quotes)
+        vol_quotes = clean_vol_quotes_column_names(vol_quotes.copy())
         vol_quotes_call_put = solve_call_put_quotes_from_strategy_quotes(vol_quotes)
         delta_smile_quote_details = get_delta_smile_quote_details(vol_quotes_call_put)
         self.quotes_column_names = np.array(delta_smile_quote_details['quotes_column_names'].to_list())
-- 
2.43.0


From 032730874a43dc70fb18f1717f028e6eae60a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:00 +0000
Subject: [PATCH 65/65] fix: zero curves with a discount factor pillar at t=0
 (so every flat shift) had a NaN short rate, and NaN splines on zero rates

---
 frm/term_structures/zero_curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 7a7f5ee..a618381 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -104,6 +104,10 @@ class ZeroCurve:
         # TODO: I'm not that happy with this approach.
         #  Want to make the short end extrapolation more explicit in the documentation.
         #  HW1F model needs a zero rate at t=0 so that is a requirement to at least make clear to user in error message or documentation.
+        if Y_column_name == 'discount_factor' and pillar_df['years'].iloc[0] == 0:
+            # The zero rate at t=0 does not follow from its discount factor, so this pillar is set up below as well
+            pillar_df = pillar_df.iloc[1:]
+
         if pillar_df['years'].iloc[0] != 0:
             first_row = {'years': 0.0, 'discount_factor': 1.0}
             if 'tenor' in pillar_df.columns:
-- 
2.43.0

