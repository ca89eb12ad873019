from ob import Spec

S = Spec('C10', '''
import scipy
import numpy as np
from datetime import date, datetime, timedelta
from dateutil.relativedelta import relativedelta
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.holidays import Holiday
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentFrequency, BusinessDayAdjustment, DayCountConvention, SettlementConvention
from fixedIncome.src.assets.base_cashflow import CashflowKeys, Cashflow
from fixedIncome.src.curves.base_curve import DiscountCurve
from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond, BondPayment
from fixedIncome.src.assets.credit.corporate_bond import FixedRateBond
''', '''
class GivenT(UsTreasuryBond):
    def __init__(self, pays, acc, **kw):
        self.pays = pays
        self.acc = acc
        super().__init__(**kw)
    def create_coupon_payments_cashflow(self):
        return Cashflow(self.pays)
    def calculate_accrued_interest(self, reference_date=None):
        return self.acc(self.purchase_date if reference_date is None else reference_date)

class GivenC(FixedRateBond):
    def __init__(self, pays, acc, **kw):
        self.pays = pays
        self.acc = acc
        super().__init__(**kw)
    def create_coupon_payments_cashflow(self):
        return Cashflow(self.pays)
    def calculate_accrued_interest(self, reference_date=None):
        return self.acc(self.purchase_date if reference_date is None else reference_date)

class Stub(DiscountCurve):
    def __init__(self, ref, f):
        self.reference_date = ref
        self.f = f
    def __call__(self, date_obj, adjustment=None):
        return self.f(date_obj)

def given(cls, pays, acc, c, principal, bought, matures, cal, freq=PaymentFrequency.SEMI_ANNUAL, conv=SettlementConvention.T_PLUS_ONE_BUSINESS, dcc=DayCountConvention.ACTUAL_OVER_ACTUAL, price=100):
    return cls(pays, acc, price=price, coupon_rate=c, principal=principal, tenor='1Y', purchase_date=bought, maturity_date=matures, holiday_calendar=cal, payment_frequency=freq,
               settlement_convention=conv, day_count_convention=dcc)

def settles(day, conv, cal):
    return Scheduler.calculate_settlement_date(purchase_date=day, settlement_convention=conv, holiday_calendar=cal)

def every(pays, matures, principal, cal):
    return sorted(pays, key=lambda p: p.payment_date) + [BondPayment(payment_date=Scheduler.following_date_adjustment(matures, holiday_calendar=cal), payment=principal, unadjusted_payment_date=matures)]

def at_rate(pays, rate, n, day, settle, dcc):
    t = 0
    for p in pays:
        if p.unadjusted_payment_date >= settle:
            t += p.payment / (1 + rate / n) ** (n * DayCountCalculator.compute_accrual_length(day, p.payment_date, dcc))
    return t

def on_curve(pays, f, settle):
    t = 0
    for p in pays:
        if p.unadjusted_payment_date >= settle:
            t += f(p.payment_date) * p.payment
    return t
''')
OP = ('Scheduler.add_business_days', 'Scheduler.is_business_day', 'Scheduler.following_date_adjustment', 'Scheduler.modified_following_date_adjustment',
      'Scheduler.calculate_settlement_date', 'DayCountCalculator.compute_accrual_length')
A = 'pays: seq:obj:BondPayment, acc: fn:num, c: num, principal: num, bought: date, matures: date, cal: dict:str:obj:Holiday'
for g, cls in (('GivenT', 'UsTreasuryBond'), ('GivenC', 'FixedRateBond')):
    B = f'given({g}, pays, acc, c, principal, bought, matures, cal{{}})'
    for freq, n, conv, dcc in (('SEMI_ANNUAL', 2, 'T_PLUS_ONE_BUSINESS', 'ACTUAL_OVER_ACTUAL'), ('QUARTERLY', 4, 'T_PLUS_TWO_BUSINESS', 'ACTUAL_OVER_360'),
                               ('ANNUAL', 1, 'T_PLUS_ZERO_BUSINESS', 'THIRTY_OVER_THREESIXTY')):
        arg = f', PaymentFrequency.{freq}, SettlementConvention.{conv}, DayCountConvention.{dcc}'
        SET = f'settles({{}}, SettlementConvention.{conv}, cal)'
        b = B.format(arg)
        S.eq(f'{cls} a payment is received from its settlement on {conv}', A + ', p: obj:BondPayment, day: date',
             f'b = {b}\nreturn (b.is_payment_received(p), b.is_payment_received(p, day), b.is_payment_received(p, reference_date=day))',
             f'{b}\nx = p.unadjusted_payment_date >= {SET.format("day")}\nreturn (p.unadjusted_payment_date >= {SET.format("bought")}, x, x)',
             opaque=OP, at=f'{cls}.is_payment_received', wrong=f'x = p.unadjusted_payment_date > {SET.format("day")}\nreturn (p.unadjusted_payment_date >= {SET.format("bought")}, x, x)')
        S.eq(f'{cls} value at a single rate {freq}', A + ', rate: num, day: date', f'{b}.discount_cashflows_by_fixed_rate(rate, day)',
             f'{b}\nreturn at_rate(every(pays, matures, principal, cal), rate, {n}, day, {SET.format("day")}, DayCountConvention.{dcc})', opaque=OP,
             at=f'{cls}.discount_cashflows_by_fixed_rate',
             wrong=f'at_rate(every(pays, matures, principal, cal), rate, {n + 1}, day, {SET.format("day")}, DayCountConvention.{dcc})')
        S.eq(f'{cls} value at a single rate from purchase {freq}', A + ', rate: num', f'{b}.discount_cashflows_by_fixed_rate(rate)',
             f'{b}\nreturn at_rate(every(pays, matures, principal, cal), rate, {n}, bought, {SET.format("bought")}, DayCountConvention.{dcc})', opaque=OP,
             at=f'{cls}.discount_cashflows_by_fixed_rate')
        S.eq(f'{cls} value on a curve {conv}', A + ', r: date, f: fn:num', f'{b}.present_value(Stub(r, f))',
             f'{b}\nreturn on_curve(every(pays, matures, principal, cal), f, {SET.format("r")})', opaque=OP, at=f'{cls}.present_value',
             wrong=f'on_curve(every(pays, matures, 2 * principal, cal), f, {SET.format("r")})')
        S.eq(f'{cls} yield equates value and full price {freq}', A + ', day: date, price: num', f'{B.format(arg + ", price")}.yield_to_maturity(day)', f'''
b = {B.format(arg + ", price")}
def gap(rate):
    return np.array([(price + 100 * acc(day) / principal) * principal / 100 - at_rate(every(pays, matures, principal, cal), float(rate), {n}, day, {SET.format("day")}, DayCountConvention.{dcc})])
return float(scipy.optimize.root(gap, x0=np.array([0.0]), tol=1E-8)['x'])
''', opaque=OP, at=f'{cls}.yield_to_maturity')
    S.eq(f'{cls} yield from purchase', A, f'{B.format("")}.yield_to_maturity()', f'{B.format("")}.yield_to_maturity(bought)', opaque=OP, at=f'{cls}.yield_to_maturity')
    Z = f'given({g}, [], acc, c, principal, bought, matures, cal, PaymentFrequency.ZERO_COUPON)'
    S.eq(f'{cls} zero coupon bond has a value at a single rate', A.split(', ', 1)[1] + ', rate: num', f'''
try:
    {Z}.discount_cashflows_by_fixed_rate(rate)
except ZeroDivisionError:
    return 'fails'
return 'valued'
''', f'{Z}\nreturn "valued"', opaque=OP, at=f'{cls}.discount_cashflows_by_fixed_rate')
