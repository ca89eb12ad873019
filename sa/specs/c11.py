from ob import Spec

S = Spec('C11', '''
import scipy
import numpy as np
from datetime import date, datetime, timedelta
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.holidays import Holiday
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentFrequency, BusinessDayAdjustment, DayCountConvention, SettlementConvention
from fixedIncome.src.assets.base_cashflow import CashflowKeys, Cashflow
from fixedIncome.src.risk.risk_metrics import ONE_BASIS_POINT, ONE_PERCENT
from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond, BondPayment
from fixedIncome.src.assets.credit.corporate_bond import FixedRateBond
''', '''
class GivenT(UsTreasuryBond):
    def __init__(self, v, y, acc, **kw):
        self.v, self.y, self.acc = v, y, acc
        super().__init__(**kw)
    def create_coupon_payments_cashflow(self):
        return Cashflow([])
    def calculate_accrued_interest(self, reference_date=None):
        return self.acc(self.purchase_date if reference_date is None else reference_date)
    def yield_to_maturity(self, reference_date=None):
        return self.y(self.purchase_date if reference_date is None else reference_date)
    def discount_cashflows_by_fixed_rate(self, fixed_rate, reference_date=None):
        return self.v(fixed_rate, self.purchase_date if reference_date is None else reference_date)

class GivenC(FixedRateBond):
    def __init__(self, v, y, acc, **kw):
        self.v, self.y, self.acc = v, y, acc
        super().__init__(**kw)
    def create_coupon_payments_cashflow(self):
        return Cashflow([])
    def calculate_accrued_interest(self, reference_date=None):
        return self.acc(self.purchase_date if reference_date is None else reference_date)
    def yield_to_maturity(self, reference_date=None):
        return self.y(self.purchase_date if reference_date is None else reference_date)
    def discount_cashflows_by_fixed_rate(self, fixed_rate, reference_date=None):
        return self.v(fixed_rate, self.purchase_date if reference_date is None else reference_date)

class PaysC(FixedRateBond):
    def __init__(self, pays, acc, **kw):
        self.pays, self.acc = pays, acc
        super().__init__(**kw)
    def create_coupon_payments_cashflow(self):
        return Cashflow(self.pays)
    def calculate_accrued_interest(self, reference_date=None):
        return self.acc(self.purchase_date if reference_date is None else reference_date)

def given(cls, v, y, acc, price, principal, bought, matures, cal):
    return cls(v, y, acc, price=price, coupon_rate=5, principal=principal, tenor='1Y', purchase_date=bought, maturity_date=matures, holiday_calendar=cal)

def pays_(pays, acc, price, principal, bought, matures, cal, freq=PaymentFrequency.SEMI_ANNUAL, dcc=DayCountConvention.ACTUAL_OVER_ACTUAL, conv=SettlementConvention.T_PLUS_ONE_BUSINESS):
    return PaysC(pays, acc, price=price, coupon_rate=5, principal=principal, tenor='1Y', purchase_date=bought, maturity_date=matures, holiday_calendar=cal,
                 payment_frequency=freq, day_count_convention=dcc, settlement_convention=conv)

def slope(v, r, day):
    h = 0.0001
    return (v(r + h / 2, day) - v(r - h / 2, day)) / h

def curvature(v, r, day):
    h = 0.0001
    return (v(r + h, day) - 2 * v(r, day) + v(r - h, day)) / h ** 2

def dirty(acc, price, principal, day):
    return (price + 100 * acc(day) / principal) * principal / 100

def every(pays, matures, principal, cal):
    return sorted(pays, key=lambda p: p.payment_date) + [BondPayment(payment_date=Scheduler.following_date_adjustment(matures, holiday_calendar=cal), payment=principal, unadjusted_payment_date=matures)]

def weighted(pays, rate, n, day, settle, dcc):
    t = 0
    for p in pays:
        if p.unadjusted_payment_date >= settle:
            u = DayCountCalculator.compute_accrual_length(day, p.payment_date, dcc)
            t += u * p.payment / (1 + rate / n) ** (n * u)
    return t
''')
OP = ('Scheduler.add_business_days', 'Scheduler.is_business_day', 'Scheduler.following_date_adjustment', 'Scheduler.modified_following_date_adjustment',
      'Scheduler.calculate_settlement_date', 'DayCountCalculator.compute_accrual_length')
A = 'v: fn:num, y: fn:num, acc: fn:num, price: num, principal: num, bought: date, matures: date, cal: dict:str:obj:Holiday'
S.eq('a basis point is a ten-thousandth', '', '(ONE_BASIS_POINT, ONE_PERCENT)', '(0.0001, 0.01)', at='risk_metrics')
for g, cls in (('GivenT', 'UsTreasuryBond'), ('GivenC', 'FixedRateBond')):
    B = f'given({g}, v, y, acc, price, principal, bought, matures, cal)'
    S.eq(f'{cls} slope in the yield', A + ', off: num, r: num', f'{B}.pv_deriv(off, r)', 'slope(v, r + off, bought)', opaque=OP, at=f'{cls}.pv_deriv', wrong='slope(v, r - off, bought)')
    S.eq(f'{cls} slope at its own yield', A, f'{B}.pv_deriv()', 'slope(v, y(bought), bought)', opaque=OP, at=f'{cls}.pv_deriv')
    S.eq(f'{cls} duration', A, f'{B}.duration()', '-slope(v, y(bought), bought) / dirty(acc, price, principal, bought)', opaque=OP, at=f'{cls}.duration',
         wrong='slope(v, y(bought), bought) / dirty(acc, price, principal, bought)')
    S.eq(f'{cls} convexity', A, f'{B}.convexity()', 'curvature(v, y(bought), bought) / dirty(acc, price, principal, bought)', opaque=OP, at=f'{cls}.convexity',
         wrong='2 * curvature(v, y(bought), bought) / dirty(acc, price, principal, bought)')
P = 'pays: seq:obj:BondPayment, acc: fn:num, price: num, principal: num, bought: date, matures: date, cal: dict:str:obj:Holiday, rate: num'
for freq, n, conv, dcc in (('SEMI_ANNUAL', 2, 'T_PLUS_ONE_BUSINESS', 'ACTUAL_OVER_ACTUAL'), ('QUARTERLY', 4, 'T_PLUS_TWO_BUSINESS', 'ACTUAL_OVER_360')):
    B = f'pays_(pays, acc, price, principal, bought, matures, cal, PaymentFrequency.{freq}, DayCountConvention.{dcc}, SettlementConvention.{conv})'
    R = f'weighted(every(pays, matures, principal, cal), rate, {n}, {{0}}, Scheduler.calculate_settlement_date(purchase_date={{0}}, settlement_convention=SettlementConvention.{conv}, holiday_calendar=cal), DayCountConvention.{dcc}) / dirty(acc, price, principal, {{0}})'
    S.eq(f'Macaulay duration {freq}', P, f'{B}.macaulay_duration(rate)', B + '\nreturn ' + R.format('bought'), opaque=OP, at='FixedRateBond.macaulay_duration',
         wrong='2 * ' + R.format('bought'))
    S.eq(f'Macaulay duration from another date {freq}', P + ', day: date', f'{B}.macaulay_duration(rate, day)', B + '\nreturn ' + R.format('day'), opaque=OP, at='FixedRateBond.macaulay_duration')
