From b245c9f4a873506e8cce9b2430662c03502db603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 01/59] fix: 30/360 day count applies the end-of-February rule
 to the actual last day of February

---
 fixedIncome/src/scheduling_tools/day_count_calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index fd71f73..c3a84da 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -146,8 +146,8 @@ class DayCountCalculator(object):
 
         # date adjustments in order according to https://en.wikipedia.org/wiki/Day_count_convention#30/360_US
 
-        start_date_last_day_in_feb = (start_month == 2) and (start_day == 28)
-        end_date_last_day_in_feb = (end_month == 2) and (end_day == 28)
+        start_date_last_day_in_feb = (start_month == 2) and ((start_date + timedelta(1)).month == 3)
+        end_date_last_day_in_feb = (end_month == 2) and ((end_date + timedelta(1)).month == 3)
 
         # adjustment (1)
         if start_date_last_day_in_feb and end_date_last_day_in_feb:
-- 
2.43.0


From 507960ace6afb6858be7b5de111dbfb1be8bc6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 02/59] fix: business day test includes holidays observed
 across a year end

---
 fixedIncome/src/scheduling_tools/scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/scheduler.py b/fixedIncome/src/scheduling_tools/scheduler.py
index a97794a..ffd1752 100644
--- a/fixedIncome/src/scheduling_tools/scheduler.py
+++ b/fixedIncome/src/scheduling_tools/scheduler.py
@@ -100,8 +100,9 @@ class Scheduler(object):
         """
         is_weekday = date_obj.weekday() != Weekdays.SATURDAY.value and date_obj.weekday() != Weekdays.SUNDAY.value
         year = date_obj.year
-        not_holiday = date_obj not in generate_all_holidays(from_year=year,
-                                                            to_year=year,
+        # the observed date of a holiday can fall in the year before or after the holiday itself
+        not_holiday = date_obj not in generate_all_holidays(from_year=year - 1,
+                                                            to_year=year + 1,
                                                             holiday_calendar=holiday_calendar)
 
         return not_holiday and is_weekday
-- 
2.43.0


From 1e3668e018aa8672a744488de2d6f907c448f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 03/59] fix: generated dates do not drift from month end and
 respect max_dates

---
 fixedIncome/src/scheduling_tools/scheduler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/scheduler.py b/fixedIncome/src/scheduling_tools/scheduler.py
index ffd1752..e17d9a2 100644
--- a/fixedIncome/src/scheduling_tools/scheduler.py
+++ b/fixedIncome/src/scheduling_tools/scheduler.py
@@ -146,15 +146,15 @@ class Scheduler(object):
                             f'Only timedelta and relativedelta are allowed.')
 
         if positive_delta:
-            while date_obj <= end_date and count <= max_dates:
+            while date_obj <= end_date and count < max_dates:
                 dates.append(date_obj)
-                date_obj += increment
                 count += 1
+                date_obj = start_date + count * increment  # avoids month-end drift of repeated addition
         else:  # increment is a negative amount of time
-            while date_obj >= end_date and count <= max_dates:
+            while date_obj >= end_date and count < max_dates:
                 dates.append(date_obj)
-                date_obj += increment
                 count += 1
+                date_obj = start_date + count * increment  # avoids month-end drift of repeated addition
 
         return dates
 
-- 
2.43.0


From 7ff0669d3837813ff7e7ca8f10511a96560e5471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 04/59] fix: iterating a cashflow collection returns an
 iterator

---
 fixedIncome/src/assets/base_cashflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/base_cashflow.py b/fixedIncome/src/assets/base_cashflow.py
index bf4f632..e0dbb9e 100644
--- a/fixedIncome/src/assets/base_cashflow.py
+++ b/fixedIncome/src/assets/base_cashflow.py
@@ -121,7 +121,7 @@ class CashflowCollection(Set):
         return key in self.cashflows
     def __iter__(self):
         """ Iterates through the cashflows in the collection. """
-        return self.cashflows.items()
+        return iter(self.cashflows.items())
 
     def __getitem__(self, item: CashflowKeys | str) -> Cashflow:
         """
-- 
2.43.0


From 191c6abdcfdc9ced54137310490b9769a3c5d5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 05/59] fix: replacing a cashflow in a collection also replaces
 it in the cashflow list

---
 fixedIncome/src/assets/base_cashflow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/assets/base_cashflow.py b/fixedIncome/src/assets/base_cashflow.py
index e0dbb9e..ad6461f 100644
--- a/fixedIncome/src/assets/base_cashflow.py
+++ b/fixedIncome/src/assets/base_cashflow.py
@@ -138,6 +138,7 @@ class CashflowCollection(Set):
         Method to put a new cashflow into the Cashflow collection based on key.
         """
         if cashflow_key in self.cashflows:
+            self.cashflow_list[self.keys.index(cashflow_key)] = new_cashflow
             self.cashflows[cashflow_key] = new_cashflow
         else:
             self.cashflow_list.append(new_cashflow)
-- 
2.43.0


From 14fa8fdd2fe0aa90353e7405a1afafbdaade0aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 06/59] fix: accrued interest runs from the last unadjusted
 coupon date before the settlement date of the reference date

---
 fixedIncome/src/assets/credit/corporate_bond.py      | 12 ++++++++----
 .../us_treasury_instruments.py                       |  8 ++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 9f4fdb3..d834a96 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -113,6 +113,10 @@ class FixedRateBond(CashflowCollection):
     def price(self) -> float:
         return self._price
 
+    @property
+    def settlement_convention(self) -> SettlementConvention:
+        return self._settlement_convention
+
 
 
     def to_knot_value_pair(self) -> KnotValuePair:
@@ -273,8 +277,8 @@ class FixedRateBond(CashflowCollection):
         settlement_date = self.settlement_date if reference_date is None else Scheduler.calculate_settlement_date(purchase_date=reference_date,
                                                                                                                   settlement_convention=self.settlement_convention,
                                                                                                                   holiday_calendar=self.holiday_calendar)
-        if self.settlement_date < self.dated_date:
-            raise ValueError(f'Settlement date {self.settlement_date} is before the dated date {self.dated_date}'
+        if settlement_date < self.dated_date:
+            raise ValueError(f'Settlement date {settlement_date} is before the dated date {self.dated_date}'
                              f' for us_treasury_instruments\n{self}.')
 
         # Find last payment accrual date.
@@ -284,13 +288,13 @@ class FixedRateBond(CashflowCollection):
             following_date = self[CashflowKeys.COUPON_PAYMENTS][0].unadjusted_payment_date
 
         else:
-            date_index = bisect.bisect_right([payment.payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], self.purchase_date)
+            date_index = bisect.bisect_left([payment.unadjusted_payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], settlement_date)
             previous_date = self[CashflowKeys.COUPON_PAYMENTS][date_index-1].unadjusted_payment_date
             following_date = self[CashflowKeys.COUPON_PAYMENTS][date_index].unadjusted_payment_date
             reference_date = previous_date
 
         accrual_period = DayCountCalculator.compute_accrual_length(
-            reference_date, self.settlement_date, dcc=self.day_count_convention
+            reference_date, settlement_date, dcc=self.day_count_convention
         )
 
         accrual_fraction = accrual_period / DayCountCalculator.compute_accrual_length(
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index dc97ab1..68abccc 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -134,8 +134,8 @@ class UsTreasuryBond(CashflowCollection):
         settlement_date = self.settlement_date if reference_date is None else Scheduler.calculate_settlement_date(purchase_date=reference_date,
                                                                                                                   settlement_convention=self.settlement_convention,
                                                                                                                   holiday_calendar=self.holiday_calendar)
-        if self.settlement_date < self.dated_date:
-            raise ValueError(f'Settlement date {self.settlement_date} is before the dated date {self.dated_date}'
+        if settlement_date < self.dated_date:
+            raise ValueError(f'Settlement date {settlement_date} is before the dated date {self.dated_date}'
                              f' for us_treasury_instruments\n{self}.')
 
         # Find last payment accrual date.
@@ -145,13 +145,13 @@ class UsTreasuryBond(CashflowCollection):
             following_date = self[CashflowKeys.COUPON_PAYMENTS][0].unadjusted_payment_date
 
         else:
-            date_index = bisect.bisect_right([payment.payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], self.purchase_date)
+            date_index = bisect.bisect_left([payment.unadjusted_payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], settlement_date)
             previous_date = self[CashflowKeys.COUPON_PAYMENTS][date_index-1].unadjusted_payment_date
             following_date = self[CashflowKeys.COUPON_PAYMENTS][date_index].unadjusted_payment_date
             reference_date = previous_date
 
         accrual_period = DayCountCalculator.compute_accrual_length(
-            reference_date, self.settlement_date, dcc=self.day_count_convention
+            reference_date, settlement_date, dcc=self.day_count_convention
         )
 
         accrual_fraction = accrual_period / DayCountCalculator.compute_accrual_length(
-- 
2.43.0


From 8013ea01c397e395aef4ac872a3a395be2e5eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 07/59] fix: full price uses the accrued interest of the
 requested reference date

---
 fixedIncome/src/assets/credit/corporate_bond.py        |  8 +++-----
 .../us_treasury_instruments/us_treasury_instruments.py | 10 ++++------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index d834a96..43155c6 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -311,15 +311,13 @@ class FixedRateBond(CashflowCollection):
         """
         reference_date = reference_date if reference_date is not None else self.purchase_date
 
-        if self.accrued_interest is None:
-            self.accrued_interest = self.calculate_accrued_interest(reference_date)
+        accrued_interest = self.calculate_accrued_interest(reference_date)
 
         # normalize the amount of accrued interest by the principal amount
         # Put into 100 principal convention.
-        normalized_accrued_interest = (self.accrued_interest / self.principal) * 100.0
-        self.full_price = self.price + normalized_accrued_interest
+        normalized_accrued_interest = (accrued_interest / self.principal) * 100.0
 
-        return self.full_price
+        return self.price + normalized_accrued_interest
 
     def discount_cashflows_by_fixed_rate(self, fixed_rate: float | np.ndarray, reference_date: Optional[date] = None) -> float:
         """
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 68abccc..1580d24 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -186,15 +186,13 @@ class UsTreasuryBond(CashflowCollection):
         """
         reference_date = reference_date if reference_date is not None else self.purchase_date
 
-        if self.accrued_interest is None:
-            self.accrued_interest = self.calculate_accrued_interest(reference_date)
+        accrued_interest = self.calculate_accrued_interest(reference_date)
 
         # normalize the amount of accrued interest by the principal amount
         # Put into 100 principal convention.
-        normalized_accrued_interest = (self.accrued_interest / self.principal) * 100.0
-        self.full_price = self.price + normalized_accrued_interest
+        normalized_accrued_interest = (accrued_interest / self.principal) * 100.0
 
-        return self.full_price
+        return self.price + normalized_accrued_interest
 
     def calculate_dated_date(self) -> date:
         """
@@ -341,7 +339,7 @@ class UsTreasuryBond(CashflowCollection):
 
         full_price = self.get_full_price(reference_date)
 
-        target_price = self.full_price * self.principal/100
+        target_price = full_price * self.principal/100
         def diff_from_full_price(fixed_rate) -> np.array:
             return np.array([target_price - self.discount_cashflows_by_fixed_rate(fixed_rate, reference_date)])
 
-- 
2.43.0


From fa048c81acb64949f858e2cbcc5195208d958eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 08/59] fix: convexity calls the existing present value
 derivative

---
 fixedIncome/src/assets/credit/corporate_bond.py               | 4 ++--
 .../assets/us_treasury_instruments/us_treasury_instruments.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 43155c6..a440996 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -433,8 +433,8 @@ class FixedRateBond(CashflowCollection):
         Reference: Tuckman and Serrat, 4th ed. equation (4.14).
         """
         ytm = self.yield_to_maturity()
-        derivative_positive_bump = self.calculate_pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
-        derivative_negative_bump = self.calculate_pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
         return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 1580d24..7ffa6f8 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -376,8 +376,8 @@ class UsTreasuryBond(CashflowCollection):
         Reference: Tuckman and Serrat, 4th ed. equation (4.14).
         """
         ytm = self.yield_to_maturity()
-        derivative_positive_bump = self.calculate_pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
-        derivative_negative_bump = self.calculate_pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
         return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
 
-- 
2.43.0


From e39abdbdf3608b73c90471885c7b569fcca68ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 09/59] fix: duration and convexity divide by the full price of
 the whole principal

---
 fixedIncome/src/assets/credit/corporate_bond.py               | 4 ++--
 .../assets/us_treasury_instruments/us_treasury_instruments.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index a440996..ee0d8e6 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -424,7 +424,7 @@ class FixedRateBond(CashflowCollection):
         defined to be:
         Duration = -1/P * dP/d ytm
         """
-        return -self.pv_deriv() / self.full_price  #TODO: determine if I need to use full price of clean price here
+        return -self.pv_deriv() / (self.full_price * self.principal / 100)  #TODO: determine if I need to use full price of clean price here
 
 
     def convexity(self) -> float:
@@ -436,7 +436,7 @@ class FixedRateBond(CashflowCollection):
         derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
         derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
-        return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
+        return second_derivative / (self.full_price * self.principal / 100)  # TODO: Check if full price or clean price is needed
 
 
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 7ffa6f8..db3b583 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -368,7 +368,7 @@ class UsTreasuryBond(CashflowCollection):
         defined to be:
         Duration = -1/P * dP/d ytm
         """
-        return -self.pv_deriv() / self.full_price  #TODO: determine if I need to use full price of clean price here
+        return -self.pv_deriv() / (self.full_price * self.principal / 100)  #TODO: determine if I need to use full price of clean price here
 
     def convexity(self) -> float:
         """
@@ -379,7 +379,7 @@ class UsTreasuryBond(CashflowCollection):
         derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
         derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
-        return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
+        return second_derivative / (self.full_price * self.principal / 100)  # TODO: Check if full price or clean price is needed
 
 
 class UsTreasuryFuture(CashflowCollection):
-- 
2.43.0


From 61846d3e7ad1f802eab11edb21bb7248425bad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 10/59] fix: payments received by a purchase follow the bond's
 settlement convention

---
 fixedIncome/src/assets/credit/corporate_bond.py               | 4 +++-
 .../assets/us_treasury_instruments/us_treasury_instruments.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index ee0d8e6..244ed81 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -159,7 +159,9 @@ class FixedRateBond(CashflowCollection):
         if reference_date is None:
             settlement_date = self.settlement_date
         else:
-            settlement_date = Scheduler.add_business_days(reference_date, 1, self.holiday_calendar)
+            settlement_date = Scheduler.calculate_settlement_date(purchase_date=reference_date,
+                                                                  settlement_convention=self.settlement_convention,
+                                                                  holiday_calendar=self.holiday_calendar)
         return payment.unadjusted_payment_date >= settlement_date
 
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index db3b583..1c3cd7b 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -240,7 +240,9 @@ class UsTreasuryBond(CashflowCollection):
         if reference_date is None:
             settlement_date = self.settlement_date
         else:
-            settlement_date = Scheduler.add_business_days(reference_date, 1, self.holiday_calendar)
+            settlement_date = Scheduler.calculate_settlement_date(purchase_date=reference_date,
+                                                                  settlement_convention=self.settlement_convention,
+                                                                  holiday_calendar=self.holiday_calendar)
         return payment.unadjusted_payment_date >= settlement_date
 
     def create_principal_repayment_cashflow(self) -> Cashflow:
-- 
2.43.0


From 1b0af894bba01331b9e330f14d70355fb2321083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 11/59] fix: Macaulay duration uses the payments and full price
 of its reference date

---
 fixedIncome/src/assets/credit/corporate_bond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 244ed81..6a7f886 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -400,7 +400,7 @@ class FixedRateBond(CashflowCollection):
         pv_times_accrual = 0.0
         # Accumulate discounted coupon cashflows
         for payment in self[CashflowKeys.COUPON_PAYMENTS]:  # Zero-coupon bonds should have empty iterable here
-            if self.is_payment_received(payment):
+            if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date, self.day_count_convention)
                 accrual_times_num_payments = accrual * self.num_payments_per_year
                 accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
@@ -408,14 +408,14 @@ class FixedRateBond(CashflowCollection):
 
         # add discounted principal re-payment
         for payment in self[CashflowKeys.SINGLE_PAYMENT]:
-            if self.is_payment_received(payment):
+            if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date,
                                                                     self.day_count_convention)
                 accrual_times_num_payments = accrual * self.num_payments_per_year
                 accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
                 pv_times_accrual += accrual_df * payment.payment * accrual
 
-        scaled_full_price = self.full_price * self.principal / 100
+        scaled_full_price = self.get_full_price(reference_date) * self.principal / 100
 
         return pv_times_accrual/scaled_full_price
 
-- 
2.43.0


From 8f1fa37ba914c88f995fdb20131c5752cdf9785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 12/59] fix: end of month loan payments fall on the last day of
 each month

---
 fixedIncome/src/assets/credit/loan.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index 6134b65..e702f5b 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -78,8 +78,7 @@ class Loan(CashflowCollection):
         match self._payment_time:
 
             case PaymentTime.END_OF_MONTH:
-                _, last_day = calendar.monthrange(start_date.year, 11)
-                start_date = date(start_date.year, start_date.month, last_day)
+                start_date = self._end_of_month(start_date)
 
             case PaymentTime.START_OF_MONTH:
                 if start_date.month == 12:
@@ -90,6 +89,8 @@ class Loan(CashflowCollection):
                 raise ValueError(f'{self._payment_time} is not a valid payment time for a loan.')
 
         end_date = start_date + self._term_length
+        if self._payment_time == PaymentTime.END_OF_MONTH:
+            end_date = self._end_of_month(end_date)
 
         match self._payment_frequency:
             case PaymentFrequency.MONTHLY:
@@ -106,7 +107,9 @@ class Loan(CashflowCollection):
         payment_date = start_date
         while payment_date <= end_date:
             payment_dates.append(payment_date)
-            payment_date += payment_increment
+            payment_date = start_date + len(payment_dates) * payment_increment
+            if self._payment_time == PaymentTime.END_OF_MONTH:
+                payment_date = self._end_of_month(payment_date)
 
         # unpack extra payments
         if extra_payments is not None:
@@ -147,6 +150,12 @@ class Loan(CashflowCollection):
         return payments
 
 
+    @staticmethod
+    def _end_of_month(date_obj: date) -> date:
+        ''' The last day of the month of the provided date. '''
+        _, last_day = calendar.monthrange(date_obj.year, date_obj.month)
+        return date(date_obj.year, date_obj.month, last_day)
+
     def _calculate_interest_payment(self,
                                     accrual_start: date,
                                     accrual_end: date,
-- 
2.43.0


From 9571e2bc656247a649ef62fb19e5842df95f054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 13/59] fix: a loan payment includes the extra payment it makes

---
 fixedIncome/src/assets/credit/loan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index e702f5b..762398b 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -140,7 +140,7 @@ class Loan(CashflowCollection):
                 payment_amount = principal_payment_amount + interest_payment
 
             payments.append(
-                LoanPayment(payment_date=ed, payment=payment_amount,
+                LoanPayment(payment_date=ed, payment=principal_payment_amount + interest_payment,
                             principal_payment=principal_payment_amount,
                             interest_payment=interest_payment
                             )
-- 
2.43.0


From 64b0fbacf52e169b5bbe5a060d9202c52f4d8001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 14/59] fix: a whole-number extra loan payment is accepted

---
 fixedIncome/src/assets/credit/loan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index 762398b..c5ecf14 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -113,7 +113,7 @@ class Loan(CashflowCollection):
 
         # unpack extra payments
         if extra_payments is not None:
-            if isinstance(extra_payments, float):
+            if isinstance(extra_payments, (int, float)):
                 extra_payments = [extra_payments for payment in payment_dates]
             else:
                 extra_payments = list(extra_payments)
-- 
2.43.0


From 37f7eca9955d4ac5c91b58e3bfa477002bb706b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 15/59] fix: the present value of a loan discounts its fixed
 payment schedule

---
 fixedIncome/src/assets/credit/loan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index c5ecf14..c2da188 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -197,8 +197,8 @@ class Loan(CashflowCollection):
 
     def present_value(self, discount_curve: DiscountCurve) -> float:
         ''' Calculates the present value of the loan payments.'''
-        payments = self.generate_payment_schedule()
-        return sum(discount_curve.present_value(payment) for payment in payments)
+        payments = self.generate_payment_schedule(payment_amount=self.calculate_fixed_payment_amount())
+        return discount_curve.present_value(Cashflow(payments))
 
     def to_knot_value_pair(self):
         pass
-- 
2.43.0


From 1061acc977579e05ee95c8a35e985ef5f14d7306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 16/59] fix: the fixed payment of an interest-free loan repays
 the principal evenly

---
 fixedIncome/src/assets/credit/loan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index c2da188..1879162 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -59,6 +59,9 @@ class Loan(CashflowCollection):
             self._origination_date, self._end_date, dcc=self._day_count_convention
         )
 
+        if self._interest_rate == 0:
+            return self.principal / (length_in_years * self._payment_frequency.value)
+
         compound_factor = (1+self._interest_rate/self._payment_frequency.value)**(length_in_years * self._payment_frequency.value)
         numerator = self.principal * compound_factor
         denominator = (1 - compound_factor)/(-self._interest_rate / self._payment_frequency.value)
-- 
2.43.0


From 543001fe41fef938f05c4371d5bcaf239f694ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 17/59] fix: right constant extrapolation applied the
 adjustment to the date class instead of the date

---
 fixedIncome/src/curves/base_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/curves/base_curve.py b/fixedIncome/src/curves/base_curve.py
index 5f8d85f..595ab68 100644
--- a/fixedIncome/src/curves/base_curve.py
+++ b/fixedIncome/src/curves/base_curve.py
@@ -114,7 +114,7 @@ class Curve(Callable):
 
             match self.right_end_behavior:
                 case EndBehavior.CONSTANT:
-                    return last_val + adjustment(date)
+                    return last_val + adjustment(date_obj)
 
                 case EndBehavior.ERROR:
                     raise ValueError(f'Error in interpolate right end behavior. '
-- 
2.43.0


From 8b9032f631112f07248871b89d47e4130766ece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 18/59] fix: keep curve knots ordered when one of them is
 replaced

---
 fixedIncome/src/curves/base_curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/curves/base_curve.py b/fixedIncome/src/curves/base_curve.py
index 595ab68..fc07565 100644
--- a/fixedIncome/src/curves/base_curve.py
+++ b/fixedIncome/src/curves/base_curve.py
@@ -137,6 +137,7 @@ class Curve(Callable):
         """ Resets the interpolation based on a new KnotValuePair located at the provided index. """
         #TODO: Create checks for knot_dates
         self._interpolation_values[index] = new_value
+        self._interpolation_values.sort(key=lambda interp_val: interp_val.knot)
         self._create_interpolation_object()
 
 
-- 
2.43.0


From 0d22b4fd3be1bce190c9413beaf5d41ea75edcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 19/59] fix: quote adjustments of a yield curve raised
 AttributeError (knot value pairs are immutable)

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 64b850e..86df8e3 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -42,8 +42,8 @@ class YieldCurve(Curve):
         self._interpolation_values = [instrument.to_knot_value_pair() for instrument in instruments]
 
         #TODO: Consider logging the adjustments
-        for kv_pair, quote_adjustment in zip(self.interpolation_values, quote_adjustments):
-            kv_pair.value += quote_adjustment
+        for i, (kv_pair, quote_adjustment) in enumerate(zip(self.interpolation_values, quote_adjustments)):
+            self._interpolation_values[i] = KnotValuePair(kv_pair.knot, kv_pair.value + quote_adjustment)
 
         super().__init__(self.interpolation_values,
                          interpolation_method,
-- 
2.43.0


From 550d01794aff4764648a3b92b40b4ab95a099c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 20/59] fix: a discount curve handed out by a yield curve was
 overwritten by the next conversion

---
 .../src/curves/yield_curves/yield_curve.py    | 36 ++++++++-----------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 86df8e3..30d7e8f 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -82,17 +82,13 @@ class YieldCurve(Curve):
                 interpolation_values = [KnotValuePair(knot=kv_pair.knot, value=self(kv_pair.knot, adjustment_fxcn))
                                         for kv_pair in self.interpolation_values]
 
-                if self.discount_curve is None:
-
-                    self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
-                                                        interpolation_method=self.interpolation_method,
-                                                        index=CurveIndex.US_TREASURY,
-                                                        interpolation_day_count_convention=self.interpolation_day_count_convention,
-                                                        reference_date=self.reference_date,
-                                                        left_end_behavior=EndBehavior.ERROR,
-                                                        right_end_behavior=EndBehavior.ERROR)
-                else:
-                    self.discount_curve.reset_interpolation_values(interpolation_values)
+                self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
+                                                    interpolation_method=self.interpolation_method,
+                                                    index=CurveIndex.US_TREASURY,
+                                                    interpolation_day_count_convention=self.interpolation_day_count_convention,
+                                                    reference_date=self.reference_date,
+                                                    left_end_behavior=EndBehavior.ERROR,
+                                                    right_end_behavior=EndBehavior.ERROR)
 
                 return self.discount_curve
 
@@ -109,17 +105,13 @@ class YieldCurve(Curve):
                 interpolation_values = [KnotValuePair(knot=date_obj, value=df)
                                         for date_obj, df in zip(date_range, discount_factors)]
 
-                if self.discount_curve is None:
-                    self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
-                                                        interpolation_method=InterpolationMethod.LINEAR,  # because we fill the date range
-                                                        index=CurveIndex.US_TREASURY,
-                                                        interpolation_day_count_convention=self.interpolation_day_count_convention,
-                                                        reference_date=self.reference_date,
-                                                        left_end_behavior=EndBehavior.ERROR,
-                                                        right_end_behavior=EndBehavior.ERROR)
-
-                else:
-                    self.discount_curve.reset_interpolation_values(interpolation_values)
+                self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
+                                                    interpolation_method=InterpolationMethod.LINEAR,  # because we fill the date range
+                                                    index=CurveIndex.US_TREASURY,
+                                                    interpolation_day_count_convention=self.interpolation_day_count_convention,
+                                                    reference_date=self.reference_date,
+                                                    left_end_behavior=EndBehavior.ERROR,
+                                                    right_end_behavior=EndBehavior.ERROR)
 
                 return self.discount_curve
 
-- 
2.43.0


From 33261755fa161bd32f7f4d3f07a9e494ff222f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 21/59] fix: constructing a yield curve from an iterator of
 instruments exhausted it before calibrating

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 30d7e8f..0e97e2a 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -264,6 +264,7 @@ class YieldCurveFactory(object):
                               interpolation_method: InterpolationMethod,
                               reference_date: date) -> YieldCurve:
 
+        instruments = list(instruments)
         knot_dates = [bond_obj.maturity_date for bond_obj in instruments]
         values = [0.0 for date_obj in knot_dates]
         market_prices = np.array([bond_obj.price for bond_obj in instruments])
-- 
2.43.0


From a7154327029884624e2c6b9a597915d6288a8f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 22/59] fix: bootstrapping left the solver's last trial on the
 curve and matched unsorted instruments to the wrong knots

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 0e97e2a..44ff740 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -306,7 +306,7 @@ class YieldCurveFactory(object):
         """
         Constructs a yield curve by bootstrapping the PV values to match their market prices.
         """
-        instruments = list(instruments)
+        instruments = sorted(instruments, key=lambda instrument: instrument.to_knot_value_pair().knot)
 
         market_prices = [bond_obj.price for bond_obj in instruments]
 
@@ -342,9 +342,7 @@ class YieldCurveFactory(object):
 
             solution_knot = KnotValuePair(knot=instrument.to_knot_value_pair().knot,
                                           value=float(convergence_solution['x']))
-
-            if index == 4:  # TODO: What is this??
-                yield_curve_obj.present_value(instrument)
+            yield_curve_obj.reset_interpolation_value(new_value=solution_knot, index=index)
 
         return yield_curve_obj
 
-- 
2.43.0


From 8727cbcf46021e6329f60baf7b0562e494321816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 23/59] fix: the only key rate of a collection raised TypeError
 after its date (its case was unreachable)

---
 fixedIncome/src/risk/key_rate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 455d19c..8154090 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -175,6 +175,10 @@ class KeyRate(Callable):
 
         match (self.prior_date, self.key_rate_date, self.next_date):
 
+            case (None, middle, None):  # only key rate
+                def adjustment_fxcn(input_date: date) -> float:
+                    return self.bump_val
+
             case (None, middle, following):  # first key rate
 
                 def adjustment_fxcn(input_date: date) -> float:
@@ -245,10 +249,6 @@ class KeyRate(Callable):
 
                         return (time_to_next / total_time) * self.bump_val
 
-            case (None, middle, None):  # only key rate
-                def adjustment_fxcn(input_date: date) -> float:
-                    return self.bump_val
-
             case _:
                 raise ValueError(f'Case ({self.prior_date}, {self.key_rate_date}, {self.next_date})'
                                  f' not matched in call to self.create_bump_function method.')
-- 
2.43.0


From f789f5112575e324742839bad09dd2f16770413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 24/59] fix: the first, last or only key rate of a collection
 could not be replaced (comparison with None)

---
 fixedIncome/src/risk/key_rate.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 8154090..45c062e 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -302,12 +302,11 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         match self[key].prior_date, self[key].next_date:  # assumed to align with the
                                                                    # previous and next key_rate dates
 
-            case prior_date, next_date:  # one of the middle key rate indices
-                if prior_date < new_key_rate.key_rate_date < next_date:
+            case None, None:  # only key rate in collection
+                try:
                     self.key_rates[key] = new_key_rate
-                else:
-                    raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not strictly within '
-                                     f'interval {prior_date} and {next_date}.')
+                except IndexError:
+                    raise IndexError(f'Failed to set new_key_rate at index {key}.')
 
             case None, next_date:  # first key rate index
                 if new_key_rate.key_rate_date < next_date:
@@ -326,11 +325,12 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
                                      f'strictly greater than {prior_date} when new KeyRate object would be '
                                      f'last in the collection.')
 
-            case None, None:  # only key rate in collection
-                try:
+            case prior_date, next_date:  # one of the middle key rate indices
+                if prior_date < new_key_rate.key_rate_date < next_date:
                     self.key_rates[key] = new_key_rate
-                except IndexError:
-                    raise IndexError(f'Failed to set new_key_rate at index {key}.')
+                else:
+                    raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not strictly within '
+                                     f'interval {prior_date} and {next_date}.')
 
             case _:
                 raise ValueError(f'New key rate object {new_key_rate} could not be set at index {key}.')
-- 
2.43.0


From 70ccc2ae76a57d635d87a7eb21e13bd77984a078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 25/59] fix: adding key rates in place left the collection
 unordered

---
 fixedIncome/src/risk/key_rate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 45c062e..2c0a459 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -405,7 +405,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         try:
             other_kr_dates = set(key_rate for key_rate in other)
             all_kr_dates = list(set(kr_date for kr_date in self) | other_kr_dates)
-            self.key_rates = all_kr_dates
+            self.key_rates = sorted(all_kr_dates)
             self._create_combined_adjustment_function()
             return self
 
-- 
2.43.0


From 279aa639b26b42664270c2327dd5141dce4b57ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 26/59] fix: inserting (or appending) a key rate raised
 TypeError

---
 fixedIncome/src/risk/key_rate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 2c0a459..b3835bd 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -345,10 +345,10 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         del self.key_rates[key]
         self._create_combined_adjustment_function()
 
-    def insert(self, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
-        """ Inerts a Key Rate into the collection. """
+    def insert(self, index: int, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
+        """ Inserts a Key Rate into the collection. The position follows from its date, whatever the index. """
 
-        self + new_key_rate_object
+        self += new_key_rate_object
 
     def __len__(self):
         """ Returns the number of KeyRate objects in the collection. """
-- 
2.43.0


From 4e7c6306b5582e7ac2afe95ea379c4a1134ada62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 27/59] fix: slicing or adding key rate collections re-dated
 the key rates of the originals

---
 fixedIncome/src/risk/key_rate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index b3835bd..5b9cbe4 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from collections.abc import MutableSequence
+from copy import copy
 import operator
 import bisect
 from datetime import date
@@ -288,7 +289,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         """  Retrieves a KeyRateCollection or KeyRate object from the collection via indexing. """
         if isinstance(key, slice):
             cls = type(self)
-            return cls(self.key_rates[key])
+            return cls(copy(key_rate) for key_rate in self.key_rates[key])
 
         index = operator.index(key)
         return self.key_rates[index]
@@ -392,7 +393,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         if isinstance(other, KeyRateCollection):
             other_kr_dates = set(key_rate for key_rate in other)
             all_kr_dates = list(set(kr_date for kr_date in self) | other_kr_dates)
-            return KeyRateCollection(all_kr_dates)
+            return KeyRateCollection(copy(key_rate) for key_rate in all_kr_dates)
         else:
             return NotImplemented
 
-- 
2.43.0


From 62577d3f844a407268c6fad323de5519f68845b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 28/59] fix: calculating a key rate derivative left the key
 rate bumped by half a basis point

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 44ff740..8473929 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -125,15 +125,14 @@ class YieldCurve(Curve):
         which is defined to be:
             (PV(plus key rate adjustment) - PV) / ONE BASIS POINT
         """
-        key_rate.create_adjustment_function()  # creates the default adjustment function with 1 bp movement
+        bump_val = key_rate.bump_val
         key_rate.set_bump_val(-ONE_BASIS_POINT/2)
         pv_with_negative_adjustment = self.present_value(assets, key_rate)
 
-        key_rate.create_adjustment_function()
         key_rate.set_bump_val(ONE_BASIS_POINT / 2)
         pv_with_positive_adjustment = self.present_value(assets, key_rate)
 
-        key_rate.create_adjustment_function()  # reset key rate bump value
+        key_rate.set_bump_val(bump_val)  # reset key rate bump value
         key_rate_deriv = (pv_with_positive_adjustment - pv_with_negative_adjustment) / ONE_BASIS_POINT
         return key_rate_deriv
 
-- 
2.43.0


From d5cce41befc19f58ce8a06132855f5fbcc0974c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 29/59] fix: no risk was ever found in a risk ladder

---
 fixedIncome/src/risk/risk_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/risk_metrics.py b/fixedIncome/src/risk/risk_metrics.py
index 76a6536..5ac0880 100644
--- a/fixedIncome/src/risk/risk_metrics.py
+++ b/fixedIncome/src/risk/risk_metrics.py
@@ -33,7 +33,7 @@ class RiskLadder(Collection[Risk]):
 
     def __contains__(self, risk: Risk) -> bool:
         """ Tests if the Risk ladder contains a specified risk unit."""
-        pass
+        return risk in self._risks
 
     def __iter__(self):
         return iter(self._risks)
-- 
2.43.0


From b2fecc73c10751a4305c204ba051dec7f94e5f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 30/59] fix: a portfolio with two assets of the same knot date
 had no key rate collection

---
 fixedIncome/src/portfolio/base_portfolio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/portfolio/base_portfolio.py b/fixedIncome/src/portfolio/base_portfolio.py
index 9577ed3..02fc16a 100644
--- a/fixedIncome/src/portfolio/base_portfolio.py
+++ b/fixedIncome/src/portfolio/base_portfolio.py
@@ -49,8 +49,8 @@ class Portfolio:
         Takes a portfolio and returns a KeyRateCollection, where each
         asset in the portfolio has a corresponding KeyRate in the collection.
         """
-        kr_list = [KeyRate(day_count_convention=day_count_convention,
-                           key_rate_date=portfolio_asset.asset.to_knot_value_pair().knot) for portfolio_asset in self]
+        kr_dates = {portfolio_asset.asset.to_knot_value_pair().knot for portfolio_asset in self}
+        kr_list = [KeyRate(day_count_convention=day_count_convention, key_rate_date=kr_date) for kr_date in kr_dates]
 
         return KeyRateCollection(kr_list)
 
-- 
2.43.0


From 86388b308f3d34157e3a6271320b79c67d75dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 31/59] fix: looking up a path between grid points interpolated
 with the weights of its neighbours swapped

---
 fixedIncome/src/stochastics/brownian_motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index 8e37177..ff72944 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -55,7 +55,7 @@ def datetime_to_path_call(
                                                                         end_date=datetime_grid[upper_datetime_index],
                                                                         dcc=day_count_convention)
 
-    interpolation_factor = time_to_next_grid_point / (time_to_next_grid_point + time_since_last_grid_point)
+    interpolation_factor = time_since_last_grid_point / (time_to_next_grid_point + time_since_last_grid_point)
 
     prev_value = path[:, lower_datetime_index]
     next_value = path[:, upper_datetime_index]
-- 
2.43.0


From eecb163878cd75829c271587c6ffc14d52e214fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 32/59] fix: a Brownian path was read on the grid of increments
 generated after it

---
 fixedIncome/src/stochastics/brownian_motion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index ff72944..2c5a3f7 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -82,6 +82,7 @@ class BrownianMotion(Callable):
         self.lower_triangular_mat = np.linalg.cholesky(self.correlation_matrix)
         self._path = None
         self._datetimes = None
+        self._path_datetimes = None
         self._dt_increments = None
         self.day_count_convention = day_count_convention
 
@@ -118,7 +119,7 @@ class BrownianMotion(Callable):
                                      start_date_time=self.start_date_time,
                                      end_date_time=self.end_date_time,
                                      day_count_convention=self.day_count_convention,
-                                     datetime_grid=self.datetimes,
+                                     datetime_grid=self._path_datetimes,
                                      path=self.path)
 
     def generate_increments(
@@ -161,6 +162,7 @@ class BrownianMotion(Callable):
 
         if set_path:
             self._path = brownian_paths
+            self._path_datetimes = self.datetimes
 
         return brownian_paths
 
-- 
2.43.0


From 48bf1c8e81e55f151556704bb2a4eac7ffea7e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 33/59] fix: a diffusion path was read on the grid of whatever
 its Brownian motion generated last

---
 fixedIncome/src/stochastics/base_processes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 2e49a02..2124edc 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -42,6 +42,7 @@ class DiffusionProcess(abc.Callable):
 
         self._dimension = len(self.drift_diffusion_collection)
         self._path = None
+        self._path_datetimes = None
 
 
     @property
@@ -78,7 +79,7 @@ class DiffusionProcess(abc.Callable):
                                      start_date_time=self.start_date_time,
                                      end_date_time=self.end_date_time,
                                      path=self.path,
-                                     datetime_grid=self.brownian_motion.datetimes,
+                                     datetime_grid=self._path_datetimes,
                                      day_count_convention=self.day_count_convention)
 
     def generate_path(self,
@@ -109,6 +110,7 @@ class DiffusionProcess(abc.Callable):
         solution[:, brownian_increments.shape[1]] = current_val  # solution has one more slot
         if set_path:
             self._path = solution
+            self._path_datetimes = self.brownian_motion.datetimes
 
         return solution
 
-- 
2.43.0


From 9fdc82e7ad6a11b221deb84a8a4f37ed53cebe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 34/59] fix: a diffusion path has one row per state variable,
 not per Brownian motion

---
 fixedIncome/src/stochastics/base_processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 2124edc..28a0c3c 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -91,7 +91,7 @@ class DiffusionProcess(abc.Callable):
 
         """
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
-        solution = np.empty((brownian_increments.shape[0], brownian_increments.shape[1] + 1))
+        solution = np.empty((self.dimension, brownian_increments.shape[1] + 1))
         current_val = copy.deepcopy(starting_value)
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):  # used to be dt_increments.T
-- 
2.43.0


From ca58f56823c3c93683f7163c734a4ee7e00013ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 35/59] fix: the first step of a path starting from a list of
 values extended the list

---
 fixedIncome/src/stochastics/base_processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 28a0c3c..50e9582 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -104,7 +104,7 @@ class DiffusionProcess(abc.Callable):
                 diffusion_shock = drift_diffusion_functions.diffusion(time, current_val) @ shock  # shock contains sqrt(dt) scaling
                 next_step[row_index] = drift_increment + diffusion_shock
 
-            current_val += next_step
+            current_val = current_val + next_step
             time += dt
 
         solution[:, brownian_increments.shape[1]] = current_val  # solution has one more slot
-- 
2.43.0


From cbadf76c0a10a355ec03133d05ed32c151ad8112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 36/59] fix: a new short rate path kept the integral and
 discount curve of the old one, and a path not set replaced it

---
 .../base_short_rate_model.py                  | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 2935b1f..ee47598 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -62,15 +62,20 @@ class ShortRateModel(DiffusionProcess):
         A function which generates the short rate sample path from the underlying
         state variable diffusion sample paths.
         """
-        #self._reset_paths_and_curves()
-        self.state_variables_diffusion_process.generate_path(starting_value=starting_state_space_values,
-                                                             set_path=set_path,
-                                                             seed=seed)
+        state_path = self.state_variables_diffusion_process.generate_path(starting_value=starting_state_space_values,
+                                                                          set_path=set_path,
+                                                                          seed=seed)
 
-        path_length = self.state_variables_diffusion_process.path.shape[1]
-        self._path = np.zeros(shape=(path_length,))
+        path_length = state_path.shape[1]
+        short_rate_path = np.zeros(shape=(path_length,))
         for index in range(path_length):
-            self._path[index] = self.short_rate_transformation(self.state_variables_diffusion_process.path[:, index])
+            short_rate_path[index] = self.short_rate_transformation(state_path[:, index])
+
+        if set_path:
+            self._reset_paths_and_curves()  # integrals and curves of the old path no longer valid
+            self._path = short_rate_path
+
+        return short_rate_path
 
 
     def _reset_paths_and_curves(self) -> None:
-- 
2.43.0


From 14dcb669f9cbf1ecb5e2bf75d080d794145b87de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 37/59] fix: each interval of the integrated short rate counted
 the whole time since the start

---
 .../stochastics/short_rate_models/base_short_rate_model.py   | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index ee47598..b533e88 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -104,15 +104,12 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
         running_integral = 0.0
-        old_time_accrual = 0
         interpolation_values = [0.0]
 
         for start_dt, end_dt in itertools.pairwise(datetimes):
             start_rate, end_rate = self(start_dt), self(end_dt)
             min_rate, max_rate = min(start_rate, end_rate), max(start_rate, end_rate)
-            new_time_accrual = DayCountCalculator.compute_accrual_length(start_date_time, end_dt, self.day_count_convention)
-            accrual = new_time_accrual - old_time_accrual
-
+            accrual = DayCountCalculator.compute_accrual_length(start_dt, end_dt, self.day_count_convention)
 
             if min_rate < 0:
                 next_trapezoid_val = max_rate * accrual + (min_rate - max_rate) * accrual / 2
-- 
2.43.0


From 083a297ebb956fef53006c34a2a048bc32944e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 38/59] fix: the accrual curve raised TypeError (and duplicated
 its first knot)

---
 .../stochastics/short_rate_models/base_short_rate_model.py   | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index b533e88..e1ac172 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -140,10 +140,9 @@ class ShortRateModel(DiffusionProcess):
                                                                max_dates=1_000_000)
 
         if self._integrated_path is None:
-            self.generate_integrated_path(start_date_time, end_date_time, datetimes)
+            self.generate_integrated_path(datetimes)
 
-        compound_interpolation_values = [KnotValuePair(start_date_time, 1.0)]
-        compound_interpolation_values += [KnotValuePair(datetime_obj, math.exp(integral))
+        compound_interpolation_values = [KnotValuePair(datetime_obj, math.exp(integral))
                                           for datetime_obj, integral in zip(datetimes, self._integrated_path)]
 
         self._continuously_compounded_accrual_curve = Curve(interpolation_values=compound_interpolation_values,
-- 
2.43.0


From ad3578c032a7c97457026c865edec45f24ded5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 39/59] fix: the curves of a short rate path paired given dates
 with the integral over earlier ones

---
 .../stochastics/short_rate_models/base_short_rate_model.py  | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index e1ac172..b24d976 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -139,8 +139,7 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
 
-        if self._integrated_path is None:
-            self.generate_integrated_path(datetimes)
+        self.generate_integrated_path(datetimes)
 
         compound_interpolation_values = [KnotValuePair(datetime_obj, math.exp(integral))
                                           for datetime_obj, integral in zip(datetimes, self._integrated_path)]
@@ -169,8 +168,7 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
 
-        if self._integrated_path is None:
-            self.generate_integrated_path(datetimes)
+        self.generate_integrated_path(datetimes)
 
         discount_interpolation_values = np.exp(-self._integrated_path)
         discount_knot_values = [KnotValuePair(datetime_obj, df)
-- 
2.43.0


From 4cf35f6c8dad277f17e9f4e1d113030f6a5b755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 40/59] fix: the short rate path was never available

---
 .../src/stochastics/short_rate_models/base_short_rate_model.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index b24d976..3560c97 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -74,6 +74,7 @@ class ShortRateModel(DiffusionProcess):
         if set_path:
             self._reset_paths_and_curves()  # integrals and curves of the old path no longer valid
             self._path = short_rate_path
+            self._short_rate_path = short_rate_path
 
         return short_rate_path
 
-- 
2.43.0


From 2f15d5ef527df99c232ba007c1872694000da614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 41/59] fix: a new increment did not reach the state variables
 of a short rate model

---
 .../stochastics/short_rate_models/base_short_rate_model.py   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 3560c97..9ce0aef 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -89,6 +89,11 @@ class ShortRateModel(DiffusionProcess):
         self._continuously_compounded_accrual_path = None
         self._discount_curve = None
 
+    def set_dt(self, new_dt: timedelta | relativedelta) -> None:
+        """ Sets a new increment dt for the model and the state variables it is simulated from. """
+        super().set_dt(new_dt)
+        self.state_variables_diffusion_process.set_dt(new_dt)
+
     def generate_integrated_path(self, datetimes: Optional[list[datetime | date]] = None) -> np.array:
         """
         Method for creating a path which represents the integral of the short rate path
-- 
2.43.0


From 1c04489984d12de0d785f0033a8bc90bbd3df966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 42/59] fix: the Vasicek short rate is a number (integrating
 its path raised ValueError)

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 464a492..2af6909 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -88,7 +88,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
                                              brownian_motion=brownian_motion,
                                              dt=dt)
 
-        super().__init__(short_rate_transformation=lambda short_rate: short_rate,
+        super().__init__(short_rate_transformation=lambda state_variables: state_variables[0],
                          state_variables_diffusion_process=diffusion_process)
 
         self.convexity_limit = -self.volatility**2 / (2 * self.reversion_speed**2)
-- 
2.43.0


From 7838366b44844dba1e696f2b5c6d39b89f950a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 43/59] fix: Vasicek bond prices and yields from a later
 purchase date used the time from the start of the model

---
 .../affine_yield_curve_models/vasicek_model.py        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 2af6909..2fcf183 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -205,12 +205,15 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
 
         return {'intercept': intercept_deriv, 'coefficient': -exp_factor}
 
-    def _create_bond_yield_coeffs(self, maturity_date) -> None:
+    def _create_bond_yield_coeffs(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> None:
         """
         Overrides the class method for setting the coefficients for calculating a zero-coupon bond yield.
         Reference:  Pages 165-171 of Rebonato *Bond Pricing and Yield Curve Modeling*.
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
         coefficient = -(1 - math.exp(-self.reversion_speed * accrual)) / self.reversion_speed
@@ -229,7 +232,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_price_coeffs(maturity_date)
+        self._create_bond_price_coeffs(maturity_date, purchase_date)
         return math.exp(self.price_state_variable_coeffs['intercept']
                         + self.price_state_variable_coeffs['coefficient'] * self(purchase_date))
 
@@ -243,7 +246,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_yield_coeffs(maturity_date)
+        self._create_bond_yield_coeffs(maturity_date, purchase_date)
         yield_value = self.yield_state_variable_coeffs['intercept'] \
                       + self.yield_state_variable_coeffs['coefficient'] * self(purchase_date)
 
-- 
2.43.0


From fc15d750e33c14c913c61dc5f35592d1acce86c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 44/59] fix: Vasicek price convexities from a later purchase
 date used the yield volatility of the model's start

---
 .../affine_yield_curve_models/vasicek_model.py        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 2fcf183..8e68ed2 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -285,20 +285,23 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         bond_prices = np.array([self.zero_coupon_bond_price(maturity_date=maturity_date, purchase_date=purchase_date)
                                 for maturity_date in maturity_dates])
 
-        volatilities = np.array([self.yield_volatility(maturity_date=maturity_date)
+        volatilities = np.array([self.yield_volatility(maturity_date=maturity_date, purchase_date=purchase_date)
                         for maturity_date in maturity_dates])
 
         return -0.5 * accruals**2 * bond_prices * volatilities**2
 
 
-    def yield_volatility(self, maturity_date: date | datetime) -> float:
+    def yield_volatility(self, maturity_date: date | datetime, purchase_date: Optional[date | datetime] = None) -> float:
         """
         Returns the volatility for a zero-coupon bond's yield for time T-maturity bonds.
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
-        self._create_bond_price_coeffs(maturity_date)
+        self._create_bond_price_coeffs(maturity_date, purchase_date)
         return -(self.price_state_variable_coeffs['coefficient'] / accrual) * self.volatility
 
     def instantaneous_forward_rate(self,
-- 
2.43.0


From d08a72442c6d3f8c202c54480ff00bf79d123778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 45/59] fix: the Vasicek model did not answer to the affine
 models' zero_coupon_bond_yield

---
 .../affine_yield_curve_models/vasicek_model.py              | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 8e68ed2..d1a5f48 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -236,6 +236,12 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         return math.exp(self.price_state_variable_coeffs['intercept']
                         + self.price_state_variable_coeffs['coefficient'] * self(purchase_date))
 
+    def zero_coupon_bond_yield(self,
+                               maturity_date: date | datetime,
+                               purchase_date: Optional[date | datetime] = None) -> float:
+        """ The method of every affine model for the yield of a zero-coupon bond. """
+        return self.zero_coupon_yield(maturity_date, purchase_date)
+
     def zero_coupon_yield(self,
                           maturity_date: date | datetime,
                           purchase_date: Optional[date | datetime] = None) -> float:
-- 
2.43.0


From f4fb824f34486e942d68e14a38db47fa47d7ac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 46/59] fix: the calibrated starting short rate of the Vasicek
 model was its long term mean

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index d1a5f48..9ee30c7 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -130,7 +130,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
-        new_params = self.parameter_calibration_dict[CalibrationParamterType.SHAPE]
+        new_params = self.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES]
         self._calibrated_starting_short_rate = new_params[0]
 
 
-- 
2.43.0


From 927cdef62a446bff8e3dff59fbf343647d38b960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 47/59] fix: Vasicek prices after calibration kept the
 convexity of the old volatility

---
 .../affine_yield_curve_models/vasicek_model.py              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 9ee30c7..6be5250 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -91,8 +91,6 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         super().__init__(short_rate_transformation=lambda state_variables: state_variables[0],
                          state_variables_diffusion_process=diffusion_process)
 
-        self.convexity_limit = -self.volatility**2 / (2 * self.reversion_speed**2)
-
         self.parameter_calibration_dict = {
             CalibrationParamterType.VOLATILITY: [self._volatility, self._reversion_speed],
             CalibrationParamterType.SHAPE: [self._long_term_mean],
@@ -110,6 +108,10 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
     def volatility(self) -> float:
         return self._volatility
 
+    @property
+    def convexity_limit(self) -> float:
+        return -self.volatility**2 / (2 * self.reversion_speed**2)
+
     @property
     def calibrated_starting_short_rate(self) -> float:
         return self._calibrated_starting_short_rate
-- 
2.43.0


From 1f80eb757afccb1238fba0171a03bf6697ddec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 48/59] fix: the multivariate Vasicek model and its three
 factor models could not be instantiated

---
 .../affine_yield_curve_models/vasicek_model.py            | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 6be5250..33b3122 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -456,26 +456,26 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         )
 
     @property
-    @abstractmethod
     def parameter_calibration_dict(self) -> dict:
         """
         Returns the dictionary containing list of parameters used for calibration.
         """
+        raise NotImplementedError(f'{type(self).__name__} has no parameters for calibration.')
 
-    @abstractmethod
     def set_volatiltiy_parameters_from_dict(self) -> None:
         """ Takes the volatility parameter values stored in the param dict and sets the
         appropriate model parameters. """
+        raise NotImplementedError(f'{type(self).__name__} has no parameters for calibration.')
 
-    @abstractmethod
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
+        raise NotImplementedError(f'{type(self).__name__} has no parameters for calibration.')
 
-    @abstractmethod
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
+        raise NotImplementedError(f'{type(self).__name__} has no parameters for calibration.')
 
 
     def expected_state_variable_mean(self,
-- 
2.43.0


From ceb47d45d691bd7bec7c438cfc464f6b37e33769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 49/59] fix: the covariance of the state variables was left in
 the coordinates of the reversion matrix's eigenvectors

---
 .../affine_yield_curve_models/vasicek_model.py              | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 33b3122..a5e183a 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -549,9 +549,9 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         broadcast_mat = np.ones((self.dimension, self.dimension)) * self.reversion_matrix_eigenvalues
         sum_eigenvalues = broadcast_mat + broadcast_mat.T
         one_minus_exp_eigen_sum = 1 - np.exp(-sum_eigenvalues * accrual)
-        H_mat = self.reversion_matrix_eigenvectors_inv @ self.C_mat @ self.reversion_matrix_eigenvectors
-        covar = one_minus_exp_eigen_sum * H_mat / sum_eigenvalues
-        return covar
+        H_mat = self.reversion_matrix_eigenvectors_inv @ self.C_mat @ self.reversion_matrix_eigenvectors_inv.T
+        eigen_covar = one_minus_exp_eigen_sum * H_mat / sum_eigenvalues
+        return self.reversion_matrix_eigenvectors @ eigen_covar @ self.reversion_matrix_eigenvectors.T
 
 
     def short_rate_variance(self,
-- 
2.43.0


From 4eca7f2caa6824de438e5584e2f44ca29f4ef1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 50/59] fix: the maturity derivative of the price coefficients
 lacked a transpose

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index a5e183a..e327d12 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -932,7 +932,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
                         np.diag(exp_negative_eigen_times_accrual) @ \
                         self.reversion_matrix_eigenvectors_inv
 
-        return -exp_reversion @ self.short_rate_coefficients
+        return -exp_reversion.T @ self.short_rate_coefficients
 
     def _calculate_intercept_deriv_wrt_maturity(self, accrual: float) -> np.array:
         """
-- 
2.43.0


From e7f07d6e0d3f0d38769ac01e63a38ed6ca325343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 51/59] fix: the calibrator imports the day count calculator it
 uses

---
 fixedIncome/src/stochastics/calibrators/factorized_calibrator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
index 3344fae..47c49b5 100644
--- a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
+++ b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
@@ -16,6 +16,7 @@ from typing import Iterable, NamedTuple
 from datetime import date
 import numpy as np
 from scipy.optimize import minimize
+from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
 from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import MultivariateVasicekModel, VasicekModel, CalibrationParamterType
 from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.doubly_mean_reverting_vasicek import DoublyMeanRevertingVasicek
 
-- 
2.43.0


From e0fbe26da06a9e027ab9fadf291d1472dd959e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 52/59] fix: plotting a Vasicek path raised NameError

---
 .../short_rate_models/affine_yield_curve_models/vasicek_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index e327d12..91b1801 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -21,6 +21,7 @@ from fixedIncome.src.stochastics.base_processes import DriftDiffusionPair
 from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.affine_model_mixin import AffineModelMixin
 from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
 from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
+from fixedIncome.src.scheduling_tools.scheduler import Scheduler
 
 
 class CalibrationParamterType(Enum):
-- 
2.43.0


From ac1cb0c6dc2808804234643421b2fe806f1c5b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:21 +0000
Subject: [PATCH 53/59] fix: the yield volatility of a bond that has matured
 was nan instead of an error

---
 .../affine_yield_curve_models/vasicek_model.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 91b1801..f1b2c49 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -823,8 +823,8 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        #if maturity_date <= purchase_date:
-        #    raise ValueError(f'Maturity datetime {maturity_date} can not be less than or equal to the purchase datetime {purchase_date}.')
+        if maturity_date <= purchase_date:
+            raise ValueError(f'Maturity datetime {maturity_date} can not be less than or equal to the purchase datetime {purchase_date}.')
 
         covar_mat = self.yield_covariance_matrix(maturity_dates=[maturity_date], purchase_date=purchase_date)
         return math.sqrt(float(covar_mat))
-- 
2.43.0


From 3081d2b6472ea7503c18fbc261241df7c0a1c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:21 +0000
Subject: [PATCH 54/59] fix: the forward rate covariance exhausted an iterator
 of maturities before using it

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index f1b2c49..cb72f47 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -853,11 +853,11 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
+        maturity_dates = list(maturity_dates)
         if min(maturity_dates) <= purchase_date:
             raise ValueError(
                 f'Minimum maturity datetime {min(maturity_dates)} can not be less than or equal to the purchase datetime {purchase_date}.')
 
-        maturity_dates = list(maturity_dates)
         B_mat = np.empty((self.dimension, len(maturity_dates)))
         for index, maturity in enumerate(maturity_dates):
             self._create_bond_yield_coeffs(maturity_date=maturity, purchase_date=purchase_date)
-- 
2.43.0


From e365fbbddf978737dac457f3a6185efddd005551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 55/59] fix: a calibrated Vasicek model kept simulating with
 the parameters it was built with

---
 .../affine_yield_curve_models/vasicek_model.py           | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index cb72f47..b91dc6f 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -123,12 +123,21 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         new_params = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY]
         self._volatility = new_params[0]
         self._reversion_speed = new_params[1]
+        self._reset_drift_diffusion_pair()
 
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
         new_params = self.parameter_calibration_dict[CalibrationParamterType.SHAPE]
         self._long_term_mean = new_params[0]
+        self._reset_drift_diffusion_pair()
+
+    def _reset_drift_diffusion_pair(self) -> None:
+        """ Has the model simulate with its current parameters. """
+        self.drift_diffusion_pair = vasicek_drift_diffusion(reversion_level=self.long_term_mean,
+                                                            reversion_scale=self.reversion_speed,
+                                                            volatility=self.volatility)
+        self.drift_diffusion_collection['short rate'] = self.drift_diffusion_pair
 
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
-- 
2.43.0


From 71866a1ed5910f9a6deb1cc588af83e96491b23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:30 +0000
Subject: [PATCH 56/59] fix: keep the minimizing parameters after calibration,
 not the last ones tried

---
 .../src/stochastics/calibrators/factorized_calibrator.py  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
index 47c49b5..a78e6bf 100644
--- a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
+++ b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
@@ -95,6 +95,9 @@ class VolatilityFactorizedCalibrator:
                                   bounds=[(0.0, 1.0) for _ in range(len(initial_volatility_params))],
                                   options={'disp': True}
                                   )
+
+        # The last parameters tried by the minimizer need not be the minimizing ones.
+        model_vol_params[:] = list(vol_min_result.x)
         return vol_min_result
 
 
@@ -139,6 +142,11 @@ class VolatilityFactorizedCalibrator:
                                   bounds=[(0.0, 1.0) for _ in range(len(initial_shape_state_params))],
                                   options={'disp': True}
                                   )
+
+        # The last parameters tried by the minimizer need not be the minimizing ones.
+        num_shape_params = len(model_shape_params)
+        model_shape_params[:] = list(price_min_result.x[:num_shape_params])
+        model_state_params[:] = list(price_min_result.x[num_shape_params:])
         return price_min_result
 
     def calibrate(self, model: MultivariateVasicekModel | VasicekModel) -> None:
-- 
2.43.0


From 4001e0417aef5e538abf4cebc941a23e2650921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:03 +0000
Subject: [PATCH 57/59] fix: a model built from calibration parameters keeps
 the starting state variables

---
 .../affine_yield_curve_models/doubly_mean_reverting_vasicek.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
index 7477410..9388920 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
@@ -101,6 +101,9 @@ class DoublyMeanRevertingVasicek(MultivariateVasicekModel):
             'dt': dt,
         }
         new_model = cls(**param_dict)
+        new_model.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES] = list(
+            new_param_calibration_dict[CalibrationParamterType.STATE_VARIABLES])
+        new_model.set_state_variables_from_dict()
         new_model.generate_path(
             starting_state_space_values=new_param_calibration_dict[CalibrationParamterType.STATE_VARIABLES],  # TODO: why was [0] index here?
             set_path=True,
-- 
2.43.0


From 1f25f668f0ddb9f96b9ce0bc7f5ea591302f9a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:25 +0000
Subject: [PATCH 58/59] fix: key rate keeps its bump when a valuation in
 calculate_key_rate_deriv fails

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 8473929..811b3ac 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -126,13 +126,15 @@ class YieldCurve(Curve):
             (PV(plus key rate adjustment) - PV) / ONE BASIS POINT
         """
         bump_val = key_rate.bump_val
-        key_rate.set_bump_val(-ONE_BASIS_POINT/2)
-        pv_with_negative_adjustment = self.present_value(assets, key_rate)
+        try:
+            key_rate.set_bump_val(-ONE_BASIS_POINT/2)
+            pv_with_negative_adjustment = self.present_value(assets, key_rate)
 
-        key_rate.set_bump_val(ONE_BASIS_POINT / 2)
-        pv_with_positive_adjustment = self.present_value(assets, key_rate)
+            key_rate.set_bump_val(ONE_BASIS_POINT / 2)
+            pv_with_positive_adjustment = self.present_value(assets, key_rate)
+        finally:
+            key_rate.set_bump_val(bump_val)  # reset key rate bump value, also when a valuation fails
 
-        key_rate.set_bump_val(bump_val)  # reset key rate bump value
         key_rate_deriv = (pv_with_positive_adjustment - pv_with_negative_adjustment) / ONE_BASIS_POINT
         return key_rate_deriv
 
-- 
2.43.0


From 2cf1d6d3fcd3a68e2f1efeb13963c3bbd123f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:16 +0000
Subject: [PATCH 59/59] fix: leave a KeyRateCollection as it was when a change
 to it is refused

---
 fixedIncome/src/risk/key_rate.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 5b9cbe4..d1f70ee 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -343,7 +343,12 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         Removes a KeyRate object from the collection by index and re-constructs the adjustment
         function with the remaining KeyRate objects in collection.
         """
-        del self.key_rates[key]
+        remaining_key_rates = list(self.key_rates)
+        del remaining_key_rates[key]
+        if not remaining_key_rates:  # refused before anything changes
+            raise ValueError('Cannot delete every KeyRate of a KeyRateCollection.')
+
+        self.key_rates = remaining_key_rates
         self._create_combined_adjustment_function()
 
     def insert(self, index: int, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
@@ -406,6 +411,8 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         try:
             other_kr_dates = set(key_rate for key_rate in other)
             all_kr_dates = list(set(kr_date for kr_date in self) | other_kr_dates)
+            KeyRateCollection(copy(key_rate) for key_rate in all_kr_dates)  # refuses two key rates of one date
+                                                                           # before anything changes
             self.key_rates = sorted(all_kr_dates)
             self._create_combined_adjustment_function()
             return self
-- 
2.43.0

