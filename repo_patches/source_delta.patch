From 8341ec75d7b4d52b6e3aa6acabd3189ff118aa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 01/29] fix: from_dict passes values as list (logarithmic
 interpolations consumed the generator)

---
 dcf/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index dd5b3a0..6bcc894 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -66,7 +66,7 @@ class base_interpolation(object):
         :return: interpolation object
         """
 
-        return cls(sorted(xy_dict), (xy_dict[k] for k in sorted(xy_dict)))
+        return cls(sorted(xy_dict), [xy_dict[k] for k in sorted(xy_dict)])
 
 
 class flat(base_interpolation):
-- 
2.43.0


From e4ebc1c2484a6c2b39b4b8a255c0455f2c6ec0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 02/29] fix: rate interpolations return 1.0 at zero if no point
 at zero is given

---
 dcf/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index 6bcc894..0c1bcc3 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -442,7 +442,7 @@ class loglinearrate(linear):
                 'log interpolation requires positive values. Got %s' % str(
                     y_list))
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.0
         log_y_list = [log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(loglinearrate, self).__init__(x_list, log_y_list)
@@ -490,7 +490,7 @@ class logconstantrate(constant):
         if not all(0. < y for y in y_list):
             raise ValueError('log interpolation requires positive values.')
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.0
         log_y_list = [-log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(logconstantrate, self).__init__(x_list, log_y_list)
-- 
2.43.0


From 85081c4ee47cd195a4779309c30f625114a843ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 03/29] fix: swap annuity pairs consecutive schedule dates

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index e0c3bb2..667b15b 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -275,7 +275,7 @@ class InterestRateCurve(RateCurve):
         """
         return sum(
             self.get_discount_factor(self.origin, e) * self.day_count(s, e)
-            for s, e in zip(date_list[:-1], date_list[0:])
+            for s, e in zip(date_list[:-1], date_list[1:])
         )
 
 
-- 
2.43.0


From 7527e428e34706ccb0bb56f629270bf58af40d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 04/29] fix: cash rate of CashRateCurve for other than forward
 tenor periods no longer recurses forever

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 667b15b..b742c71 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -438,4 +438,4 @@ class CashRateCurve(InterestRateCurve):
             stop = start + self.forward_tenor if step is None else start + step
         if stop == start + self.forward_tenor:
             return self(start)
-        return super(CashRateCurve, self).get_cash_rate(start, stop)
+        return super(CashRateCurve, self)._get_cash_rate(start, stop)
-- 
2.43.0


From c5ffb46bef21f333e5330970fbf98169e0bb5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 05/29] fix: contradicting stop and step is refused for stop
 zero, too

---
 dcf/curves/interestratecurve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index b742c71..4617e78 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -240,7 +240,7 @@ class InterestRateCurve(RateCurve):
         return self._get_cash_rate(start, stop, step)
 
     def _get_cash_rate(self, start, stop=None, step=None):
-        if stop and step:
+        if stop is not None and step is not None:
             if not start + step == stop:
                 raise AssertionError(
                     "if stop and step given, start+step must meet stop.")
@@ -430,7 +430,7 @@ class CashRateCurve(InterestRateCurve):
         return continuous_rate(df, self.day_count(start, stop))
 
     def _get_cash_rate(self, start, stop=None, step=None):
-        if stop and step:
+        if stop is not None and step is not None:
             if not start + step == stop:
                 raise AssertionError(
                     "if stop and step given, start+step must meet stop.")
-- 
2.43.0


From 69e15f14c8520df2a171ccc10bb39f1447086dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 06/29] fix: FlatIntensityCurve uses existing class attribute
 for time shift

---
 dcf/curves/creditcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 4bc85d4..fb43674 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -231,7 +231,7 @@ class FlatIntensityCurve(CreditCurve):
             return self(stop)
         if start == stop:
             return self._get_compounding_rate(
-                start, start + self.__class__._time_shift)
+                start, start + self.__class__._TIME_SHIFT)
 
         s = self(start) * self.day_count(self.origin, start)
         e = self(stop) * self.day_count(self.origin, stop)
-- 
2.43.0


From f87a44f2544d7a26bddff89d93894c1590f56ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 07/29] fix: casting a curve keeps its origin and day count
 function

---
 dcf/curves/curve.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 95ada81..1da6802 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -424,9 +424,9 @@ class DateCurve(Curve):
             data = domain
             domain = data.domain
         elif isinstance(data, DateCurve):
-            interpolation = interpolation or data.kwargs.interpolation
-            origin = origin or data.kwargs.origin
-            day_count = day_count or data.kwargs.day_count
+            interpolation = interpolation or data._interpolation
+            origin = data.origin if origin is None else origin
+            day_count = data._day_count if day_count is None else day_count
             data = data(domain)  # assuming data is a list of dates !
 
         self._domain = domain
@@ -737,8 +737,8 @@ class RateCurve(DateCurve):
             # interpolation = other.interpolation
             # interpolation = \
             #     interpolation or other.kwargs.get('interpolation', None)
-            origin = origin or other.kwargs.origin
-            day_count = day_count or other.kwargs.day_count
+            origin = other.origin if origin is None else origin
+            day_count = other._day_count if day_count is None else day_count
 
         super(RateCurve, self).__init__(
             domain, data, interpolation, origin, day_count)
-- 
2.43.0


From 3719e8052bc66d490e24f62825fd304ef4b88e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 08/29] fix: date curve arithmetic returns curve with origin
 and day count of first operand

---
 dcf/curves/curve.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 1da6802..e77ef81 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -464,29 +464,26 @@ class DateCurve(Curve):
     def __add__(self, other):
         new = super(DateCurve, self).__add__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def __sub__(self, other):
         new = super(DateCurve, self).__sub__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def __mul__(self, other):
         new = super(DateCurve, self).__mul__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def __div__(self, other):
         new = super(DateCurve, self).__div__(
             other.shifted(self.origin - other.origin))
-        new.origin = self.origin
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def day_count(self, start, end=None):
         """ day count function to calculate a year fraction of time period
-- 
2.43.0


From 7b5a3ee7775273d8deb060ef65397ee123e7adc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 09/29] fix: forward curves extrapolate from latest date of
 domain, which need not be the last item

---
 dcf/curves/curve.py | 2 +-
 dcf/curves/fx.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index e77ef81..7e7934e 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -631,7 +631,7 @@ class ForwardCurve(DateCurve):
         :param value_date: future date of asset price
         :return: asset forward price at **value_date**
         """
-        last_date = self.domain[-1]
+        last_date = max(self.domain)
         if value_date <= last_date:
             return super().__call__(value_date)
         last_price = super().__call__(last_date)
diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 01c54c0..0f81277 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -28,7 +28,7 @@ class FxForwardCurve(ForwardCurve):
         self.foreign_curve = foreign_curve
 
     def get_forward_price(self, value_date):
-        last_date = self.domain[-1]
+        last_date = max(self.domain)
         if value_date <= last_date:
             return super().get_forward_price(value_date)
         else:
-- 
2.43.0


From 27780666a9e6bdf5323bdfca43adc7197ea06c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 10/29] fix: sensitivities are evaluated at time to expiry and
 not at expiry date

---
 dcf/models/optionpricing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 3858226..f0ec0cd 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -337,7 +337,7 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or not time:
             return 0.0
         if not self.bump_greeks:
-            gamma = self._call_gamma(date, strike, fwd, vol)
+            gamma = self._call_gamma(time, strike, fwd, vol)
             if gamma is not None:
                 return gamma * (scale ** 2)
         gamma = self._call_price(time, strike, fwd + shift, vol)
@@ -384,7 +384,7 @@ class OptionPayOffModel(OptionPricingFormula):
             if vega is not None:
                 return vega * scale
         vega = self._call_price(time, strike, fwd, vol + shift)
-        vega -= self._call_price(date, strike, fwd, vol)
+        vega -= self._call_price(time, strike, fwd, vol)
         vega *= scale / shift
         return vega
 
@@ -422,7 +422,7 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or not time:
             return 0.0
         if not self.bump_greeks:
-            theta = self._call_theta(date, strike, fwd, vol)
+            theta = self._call_theta(time, strike, fwd, vol)
             if theta is not None:
                 return theta * scale
         theta = self._call_price(time + shift, strike, fwd, vol)
-- 
2.43.0


From 1faceebf6b4326804a573c4d223bb1992f003179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 11/29] fix: missing forward curve gives forward value zero

---
 dcf/models/optionpricing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index f0ec0cd..a0e9bd9 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -166,7 +166,7 @@ class OptionPayOffModel(OptionPricingFormula):
     def _tsfv(self, date, strike=None):
         details = self.details(date, strike)
         keys = 'time to expiry', 'strike', 'forward', 'volatility'
-        return tuple(details.get(k, None) for k in keys)
+        return tuple(details.get(k, 0.0) for k in keys)
         # fwd = 0.0
         # if self.forward_curve:
         #     if hasattr(self.forward_curve, 'get_forward_price'):
-- 
2.43.0


From ac7f67ae66891729142020dadbb8788fce5f0237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 12/29] fix: BinaryOptionPayOffModel keeps parameters given as
 zero

---
 dcf/models/optionpricing.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index a0e9bd9..d1e3223 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -477,11 +477,14 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
         """
         self._inner = pricing_formula
         if isinstance(pricing_formula, OptionPayOffModel):
-            valuation_date = valuation_date or pricing_formula.valuation_date
-            forward_curve = forward_curve or pricing_formula.forward_curve
-            volatility_curve = volatility_curve \
-                or pricing_formula.volatility_curve
-            day_count = day_count or pricing_formula.day_count
+            if valuation_date is None:
+                valuation_date = pricing_formula.valuation_date
+            if forward_curve is None:
+                forward_curve = pricing_formula.forward_curve
+            if volatility_curve is None:
+                volatility_curve = pricing_formula.volatility_curve
+            if day_count is None:
+                day_count = pricing_formula.day_count
         super().__init__(valuation_date, forward_curve, volatility_curve,
                          day_count, bump_greeks=True)
 
-- 
2.43.0


From db10e19261e238a879e6e00f61702a39c3920f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 13/29] fix: BinaryOptionPayOffModel uses given strike shift

---
 dcf/models/optionpricing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index d1e3223..11c9f0a 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -476,6 +476,7 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
 
         """
         self._inner = pricing_formula
+        self._strike_shift = strike_shift
         if isinstance(pricing_formula, OptionPayOffModel):
             if valuation_date is None:
                 valuation_date = pricing_formula.valuation_date
@@ -489,7 +490,9 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
                          day_count, bump_greeks=True)
 
     def _call_price(self, time, strike, forward, volatility):
-        shift = self.__class__.STRIKE_SHIFT
+        shift = self._strike_shift
+        if shift is None:
+            shift = self.__class__.STRIKE_SHIFT
         high_strike = strike + shift / 2
         low_strike = strike - shift / 2
         call = self._inner(time, low_strike, forward, volatility)
-- 
2.43.0


From cc0bb148a6af588e8eeee6fad85891e309727a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 14/29] fix: annuity plan with zero rate is the linear amortize
 plan

---
 dcf/plans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/plans.py b/dcf/plans.py
index 4b49e38..fa778fa 100644
--- a/dcf/plans.py
+++ b/dcf/plans.py
@@ -65,6 +65,8 @@ def annuity(num, amount=DEFAULT_AMOUNT, fixed_rate=FIXED_RATE):
     $$X_i = \frac{r}{(1 + r)^{n-i}} \cdot N \text{ for } i=1 \dots n$$
     """
     q = 1. + fixed_rate
+    if q == 1.:
+        return amortize(num, amount)
     a = amount * (q - 1) / (q ** int(num) - 1)
     return list(a * q ** i for i in range(int(num)))
 
-- 
2.43.0


From 5d057f0c5dc6ead3373ded3f3985e488f3a35d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 15/29] fix: interest stops to accrue at period end and not at
 later pay date

---
 dcf/pricer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index ead6041..a1c03e4 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -281,7 +281,7 @@ def get_interest_accrued(cashflow_list, valuation_date):
         if valuation_date <= pay_date:
             cf = cashflow_list.payoff(pay_date)
             if isinstance(cf, RateCashFlowPayOff):
-                if cf.start < valuation_date:
+                if cf.start < valuation_date <= cf.end:
                     remaining = cf.day_count(valuation_date, cf.end)
                     total = cf.day_count(cf.start, cf.end)
                     flow = cf(cashflow_list.forward_curve)
-- 
2.43.0


From 1b5826813b3be03f348b79bab8d95a6236b72717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 16/29] fix: accrued interest of collared rate cashflows uses
 payoff model of list

---
 dcf/pricer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index a1c03e4..f98f6d8 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -284,7 +284,7 @@ def get_interest_accrued(cashflow_list, valuation_date):
                 if cf.start < valuation_date <= cf.end:
                     remaining = cf.day_count(valuation_date, cf.end)
                     total = cf.day_count(cf.start, cf.end)
-                    flow = cf(cashflow_list.forward_curve)
+                    flow = cashflow_list[pay_date]
                     ac += flow * (1. - remaining / total)
     return ac
 
-- 
2.43.0


From 134ea838dade4992ee308b4ede7f178dc20885f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 17/29] fix: present value restores valuation date of payoff
 model even if valuation fails

---
 dcf/pricer.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index f98f6d8..16d28b6 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -100,17 +100,20 @@ def get_present_value(
         model_valuation_date = cashflow_list.payoff_model.valuation_date
         cashflow_list.payoff_model.valuation_date = valuation_date
 
-    # filter flows
-    pay_dates = list(d for d in cashflow_list.domain if valuation_date <= d)
+    try:
+        # filter flows
+        pay_dates = list(
+            d for d in cashflow_list.domain if valuation_date <= d)
+
+        # discount flows
+        value_flows = zip(pay_dates, cashflow_list[pay_dates])
+    finally:
+        # re-store model_valuation_date
+        if hasattr(cashflow_list, 'payoff_model'):
+            cashflow_list.payoff_model.valuation_date = model_valuation_date
 
-    # discount flows
-    value_flows = zip(pay_dates, cashflow_list[pay_dates])
     values = (discount_curve.get_discount_factor(valuation_date, t) * float(a)
               for t, a in value_flows)
-
-    # re-store model_valuation_date
-    if hasattr(cashflow_list, 'payoff_model'):
-        cashflow_list.payoff_model.valuation_date = model_valuation_date
     return sum(values)
 
 
-- 
2.43.0


From 3ea1af3767ee7c0c1f81cb6cba5c72ec522aaef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 18/29] fix: fair rate restores fixed rate of cashflow list
 even if valuation fails

---
 dcf/pricer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 16d28b6..09ec24c 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -360,11 +360,12 @@ def get_fair_rate(cashflow_list, discount_curve,
         pv = get_present_value(cashflow_list, discount_curve, valuation_date)
         return pv - present_value
 
-    # run bracketing
-    _, par, _ = _simple_bracketing(err, *bounds, precision)
-
-    # restore fixed rate
-    cashflow_list.fixed_rate = fixed_rate
+    try:
+        # run bracketing
+        _, par, _ = _simple_bracketing(err, *bounds, precision)
+    finally:
+        # restore fixed rate
+        cashflow_list.fixed_rate = fixed_rate
     return par
 
 
-- 
2.43.0


From 0b6e3fc8fa6dc65c0851afd2fe6cc5dc5c911204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 19/29] fix: fair rate restores fixed rates of cashflow list
 with different fixed rates

---
 dcf/pricer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 09ec24c..b48fedf 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -351,8 +351,9 @@ def get_fair_rate(cashflow_list, discount_curve,
     1000000.0
 
     """  # noqa 501
-    # store fixed rate
-    fixed_rate = cashflow_list.fixed_rate
+    # store fixed rates
+    payoffs = cashflow_list.payoff(tuple(cashflow_list.domain))
+    fixed_rates = tuple(p.fixed_rate for p in payoffs)
 
     # set error function
     def err(current):
@@ -364,8 +365,9 @@ def get_fair_rate(cashflow_list, discount_curve,
         # run bracketing
         _, par, _ = _simple_bracketing(err, *bounds, precision)
     finally:
-        # restore fixed rate
-        cashflow_list.fixed_rate = fixed_rate
+        # restore fixed rates
+        for p, r in zip(payoffs, fixed_rates):
+            p.fixed_rate = r
     return par
 
 
-- 
2.43.0


From eed9743191760df879a74b83168b73b5ae6adaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 20/29] fix: basis point value removes spread even if valuation
 fails

---
 dcf/pricer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index b48fedf..0c725d4 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -427,11 +427,15 @@ def get_basis_point_value(cashflow_list, discount_curve, valuation_date=None,
     if not isinstance(delta_curve, (list, tuple)):
         delta_curve = delta_curve,
 
-    for d in delta_curve:
-        d.spread = DateCurve([d.origin], [shift])
-    sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-    for d in delta_curve:
-        d.spread = None
+    shifted = list()
+    try:
+        for d in delta_curve:
+            d.spread = DateCurve([d.origin], [shift])
+            shifted.append(d)
+        sh = get_present_value(cashflow_list, discount_curve, valuation_date)
+    finally:
+        for d in shifted:
+            d.spread = None
 
     return (sh - pv) / shift * .0001
 
-- 
2.43.0


From 5dd6f492350d642a1243ca37bb34ecd85de32396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 21/29] fix: bucketed delta removes spread even if valuation
 fails

---
 dcf/pricer.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 0c725d4..2a77eeb 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -578,11 +578,16 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
 
     buckets = list()
     for g, s in zip(grids, shifts):
-        for d in delta_curve:
-            d.spread = DateCurve(g, s)
-        sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-        for d in delta_curve:
-            d.spread = None
+        shifted = list()
+        try:
+            for d in delta_curve:
+                d.spread = DateCurve(g, s)
+                shifted.append(d)
+            sh = get_present_value(
+                cashflow_list, discount_curve, valuation_date)
+        finally:
+            for d in shifted:
+                d.spread = None
 
         buckets.append((sh - pv) / shift * .0001)
     return tuple(buckets)
-- 
2.43.0


From e7df18850b746957995eac2d10787717a812509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 22/29] fix: curve fit removes spread even if fitting fails

---
 dcf/pricer.py | 48 +++++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 2a77eeb..8d7a025 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -728,27 +728,29 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
 
     # copy fitting_curve but set al values to 0.0
     fitting_curve.spread = fitting_curve.__class__(fitting_grid, fitting_curve)
-    for d in fitting_curve.spread.domain:
-        fitting_curve.spread[d] = 0.0
-
-    pp_list = tuple(zip(cashflow_list, present_value))
-    for d in fitting_curve.spread.domain:
-        # prepare products and prices
-        # todo: better use sensitivity to current curve point than maturity
-        filtered_pp_list = list(p for p in pp_list if max(p[0].domain) <= d)
-
-        # set error function
-        def err(current):
-            fitting_curve.spread[d] = current
-            pvs = list()
-            for cf, pv in filtered_pp_list:
-                p = get_present_value(cf, discount_curve, valuation_date)
-                pvs.append(p - pv)
-            return sum(pvs)
-
-        # run bracketing
-        _simple_bracketing(err, *bounds, precision)
-
-    data = fitting_curve(fitting_curve.spread.domain)
-    fitting_curve.spread = None
+    try:
+        for d in fitting_curve.spread.domain:
+            fitting_curve.spread[d] = 0.0
+
+        pp_list = tuple(zip(cashflow_list, present_value))
+        for d in fitting_curve.spread.domain:
+            # prepare products and prices
+            # todo: better use sensitivity to current curve point than maturity
+            filtered_pp_list = list(p for p in pp_list if max(p[0].domain) <= d)
+
+            # set error function
+            def err(current):
+                fitting_curve.spread[d] = current
+                pvs = list()
+                for cf, pv in filtered_pp_list:
+                    p = get_present_value(cf, discount_curve, valuation_date)
+                    pvs.append(p - pv)
+                return sum(pvs)
+
+            # run bracketing
+            _simple_bracketing(err, *bounds, precision)
+
+        data = fitting_curve(fitting_curve.spread.domain)
+    finally:
+        fitting_curve.spread = None
     return data
-- 
2.43.0


From e94847d03bebc2e51e5af5489e5e29f7cba31387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 23/29] fix: bucketed delta grid defaults to domain of delta
 curve

---
 dcf/pricer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 8d7a025..0769219 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -557,7 +557,10 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
 
     pv = get_present_value(cashflow_list, discount_curve, valuation_date)
     delta_curve = discount_curve if delta_curve is None else delta_curve
-    delta_grid = delta_grid if delta_grid else discount_curve.domain
+    if not delta_grid:
+        delta_grid = discount_curve.domain
+        if not isinstance(delta_curve, (list, tuple)):
+            delta_grid = delta_curve.domain
 
     if len(delta_grid) == 1:
         grids = (delta_grid,)
-- 
2.43.0


From f18a67d83af3cc93e673c47fc3481b6209dea121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 24/29] fix: fx container rebuilds curves of triangulated and
 reverse currency pairs

---
 dcf/curves/fx.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 0f81277..aa282d3 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -165,28 +165,22 @@ class FxContainer(dict):
                            foreign_curve=foreign_curve)
         self[foreign_currency, self.currency] = \
             FxForwardCurve([self.domestic_curve.origin], [1 / fx_spot],
-                           domestic_curve=self.domestic_curve,
-                           foreign_curve=foreign_curve)
+                           domestic_curve=foreign_curve,
+                           foreign_curve=self.domestic_curve)
         # _update relevant FxCurves
         f = foreign_currency
         new = dict()
         for d, s in self:
-            if s is self.currency and d is not foreign_currency:
+            if s == self.currency and not d == foreign_currency:
                 triangulated = self[d, s](self.domestic_curve.origin) * fx_spot
-                if (d, f) in self:
-                    self[d, f].foreign_curve = foreign_curve
-                    self[d, f].fx_spot = triangulated
-                    self[f, d].domestic_curve = foreign_curve
-                    self[f, d].fx_spot = 1 / triangulated
-                else:
-                    new[d, f] = FxForwardCurve(
-                        [self.domestic_curve.origin], [triangulated],
-                        domestic_curve=self[d, s].domestic_curve,
-                        foreign_curve=foreign_curve)
-                    new[f, d] = FxForwardCurve(
-                        [self.domestic_curve.origin], [1 / triangulated],
-                        domestic_curve=foreign_curve,
-                        foreign_curve=self[d, s].domestic_curve)
+                new[d, f] = FxForwardCurve(
+                    [self.domestic_curve.origin], [triangulated],
+                    domestic_curve=self[d, s].domestic_curve,
+                    foreign_curve=foreign_curve)
+                new[f, d] = FxForwardCurve(
+                    [self.domestic_curve.origin], [1 / triangulated],
+                    domestic_curve=foreign_curve,
+                    foreign_curve=self[d, s].domestic_curve)
         self.update(new)
 
     def get_forward_price(self, domestic_currency, foreign_currency,
-- 
2.43.0


From 605f10f87bb923fd688e82769f5219a980b28c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 25/29] fix: schedules of products without business dates stop
 at start date

---
 dcf/cashflows/products.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index a60546c..0217b25 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -39,7 +39,7 @@ def _interest_payment_dates(
     else:
         payment_date_list = [end_date]
         cnt = 1
-        while start_date + period <= payment_date_list[0]:
+        while start_date + period < payment_date_list[-1]:
             payment_date_list.append(end_date - period * cnt)
             cnt += 1
         payment_date_list.reverse()
-- 
2.43.0


From c151aaadf042bbd2aebd99ba3fffaedfc03223ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 26/29] fix: schedules of products look for adjust method at
 dates

---
 dcf/cashflows/products.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index 0217b25..2766949 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -44,7 +44,7 @@ def _interest_payment_dates(
             cnt += 1
         payment_date_list.reverse()
         for d in payment_date_list:
-            if hasattr('adjust', d):
+            if hasattr(d, 'adjust'):
                 d.adjust(convention, holidays)
         return payment_date_list
 
-- 
2.43.0


From 4172543779247191be6837ee4933ed79888f26f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 27/29] fix: collared rate cashflows can be valued without
 forward curve

---
 dcf/cashflows/payoffs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/payoffs.py b/dcf/cashflows/payoffs.py
index 3d9ae4c..e3bd4ec 100644
--- a/dcf/cashflows/payoffs.py
+++ b/dcf/cashflows/payoffs.py
@@ -390,7 +390,9 @@ class ContingentRateCashFlowPayOff(RateCashFlowPayOff):
         details = super().details(forward_curve)
         floorlet = caplet = 0.0
         if isinstance(model, OptionPayOffModel):
-            fixing_date = details['fixing date']
+            fixing_date = self.start
+            if self.fixing_offset:
+                fixing_date -= self.fixing_offset
             yf = details['year fraction']
             amount = details['notional']
             cf = details['cashflow']
-- 
2.43.0


From 02302337084dd950764ae0f4c7b2fb3144633885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 28/29] fix: collared rate cashflow list accepts origin zero

---
 dcf/cashflows/contingent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index 661fea3..b7148cc 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -245,7 +245,7 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
         if isinstance(amount_list, (int, float)):
             amount_list = [amount_list] * len(payment_date_list)
 
-        if origin:
+        if origin is not None:
             start_dates = [origin]
             start_dates.extend(payment_date_list[:-1])
         elif origin is None and len(payment_date_list) > 1:
-- 
2.43.0


From 6cebcb00d35ae17b284fbbc58eecbd63cb28ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:04 +0000
Subject: [PATCH 29/29] fix: accrued interest is zero at period end as
 documented

---
 dcf/pricer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 0769219..f418421 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -284,7 +284,7 @@ def get_interest_accrued(cashflow_list, valuation_date):
         if valuation_date <= pay_date:
             cf = cashflow_list.payoff(pay_date)
             if isinstance(cf, RateCashFlowPayOff):
-                if cf.start < valuation_date <= cf.end:
+                if cf.start <= valuation_date < cf.end:
                     remaining = cf.day_count(valuation_date, cf.end)
                     total = cf.day_count(cf.start, cf.end)
                     flow = cashflow_list[pay_date]
-- 
2.43.0

