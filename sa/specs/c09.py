from ob import Spec

S = Spec('C09', '''
import bisect
from datetime import date, datetime, timedelta
from dateutil.relativedelta import relativedelta
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.holidays import Holiday
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentFrequency, BusinessDayAdjustment, DayCountConvention, SettlementConvention
from fixedIncome.src.assets.base_cashflow import CashflowKeys, Cashflow
from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond, BondPayment
from fixedIncome.src.assets.credit.corporate_bond import FixedRateBond
''', '''
class TwoT(UsTreasuryBond):
    def __init__(self, days, **kw):
        self.days = days
        super().__init__(**kw)
    def create_coupon_payments_cashflow(self):
        return Cashflow([BondPayment(payment_date=a, payment=self.coupon_payment, unadjusted_payment_date=u) for u, a in self.days])

class TwoC(FixedRateBond):
    def __init__(self, days, **kw):
        self.days = days
        super().__init__(**kw)
    def create_coupon_payments_cashflow(self):
        return Cashflow([BondPayment(payment_date=a, payment=self.coupon_payment, unadjusted_payment_date=u) for u, a in self.days])

def two(cls, days, c, principal, bought, matures, cal, conv=SettlementConvention.T_PLUS_ONE_BUSINESS, dcc=DayCountConvention.ACTUAL_OVER_ACTUAL, price=100):
    return cls(days, price=price, coupon_rate=c, principal=principal, tenor='1Y', purchase_date=bought, maturity_date=matures, holiday_calendar=cal,
               settlement_convention=conv, day_count_convention=dcc)

def bond(cls, price, c, principal, bought, matures, cal, freq=PaymentFrequency.SEMI_ANNUAL, conv=SettlementConvention.T_PLUS_ONE_BUSINESS, dcc=DayCountConvention.ACTUAL_OVER_ACTUAL):
    return cls(price=price, coupon_rate=c, principal=principal, tenor='10Y', purchase_date=bought, maturity_date=matures, holiday_calendar=cal, payment_frequency=freq,
               settlement_convention=conv, day_count_convention=dcc)

def accrued(dated, u0, u1, settle, coupon, dcc):
    if settle < dated:
        raise ValueError
    if settle <= u0:
        s, e = dated, u0
    elif settle <= u1:
        s, e = u0, u1
    else:
        raise Exception
    return coupon * DayCountCalculator.compute_accrual_length(s, settle, dcc=dcc) / DayCountCalculator.compute_accrual_length(s, e, dcc=dcc)

def accrued_general(b, settle):
    if settle < b.dated_date:
        raise ValueError
    us = [p.unadjusted_payment_date for p in b[CashflowKeys.COUPON_PAYMENTS]]
    s = b.dated_date
    k = 0
    if us[0] < settle:
        k = bisect.bisect_left(us, settle)
        s = us[k - 1]
    return b.coupon_payment * DayCountCalculator.compute_accrual_length(s, settle, dcc=b.day_count_convention) / DayCountCalculator.compute_accrual_length(s, us[k], dcc=b.day_count_convention)
''')
OP = ('Scheduler.add_business_days', 'Scheduler.is_business_day', 'Scheduler.following_date_adjustment', 'Scheduler.modified_following_date_adjustment',
      'Scheduler.calculate_settlement_date', 'DayCountCalculator.compute_accrual_length')
A = 'c: num, principal: num, bought: date, matures: date, cal: dict:str:obj:Holiday'
ORD = ['u0 < u1', 'a0 < a1']
T = ', u0: date, u1: date, a0: date, a1: date'
for two, cls in (('TwoT', 'UsTreasuryBond'), ('TwoC', 'FixedRateBond')):
    B = f'two({two}, [(u0, a0), (u1, a1)], c, principal, bought, matures, cal, {{}})'
    for conv, dcc in (('T_PLUS_ONE_BUSINESS', 'ACTUAL_OVER_ACTUAL'), ('T_PLUS_TWO_BUSINESS', 'THIRTY_OVER_THREESIXTY')):
        arg = f'SettlementConvention.{conv}, DayCountConvention.{dcc}'
        SET = f'Scheduler.calculate_settlement_date(purchase_date={{}}, settlement_convention=SettlementConvention.{conv}, holiday_calendar=cal)'
        ref = lambda d: f'accrued(matures - relativedelta(years=1), u0, u1, {SET.format(d)}, principal * c / 200, DayCountConvention.{dcc})'
        S.eq(f'{cls} accrued interest at purchase {conv} {dcc}', A + T, B.format(arg) + '.accrued_interest', ref('bought'), pre=ORD, opaque=OP, at=f'{cls}.calculate_accrued_interest',
             wrong=ref('matures') if conv == 'T_PLUS_ONE_BUSINESS' else None)
        S.eq(f'{cls} accrued interest at another date {conv} {dcc}', A + T + ', day: date', B.format(arg) + '.calculate_accrued_interest(day)',
             f'{ref("bought")}\nreturn {ref("day")}', pre=ORD, opaque=OP, at=f'{cls}.calculate_accrued_interest')
        S.eq(f'{cls} full price at another date {conv} {dcc}', A + T + ', day: date', B.format(arg + ', 99') + '.get_full_price(day)',
             f'{ref("bought")}\nreturn 99 + 100 * {ref("day")} / principal', pre=ORD, opaque=OP, at=f'{cls}.get_full_price')
    for dcc in ('ACTUAL_OVER_360', 'ACTUAL_OVER_365'):
        arg = f'SettlementConvention.T_PLUS_ONE_BUSINESS, DayCountConvention.{dcc}'
        S.eq(f'{cls} accrued interest in days {dcc}', A + T + ', settle: date', f'b = {B.format(arg)}\nb.settlement_date = settle\nreturn b.calculate_accrued_interest()',
             f'b = {B.format(arg)}\nreturn accrued(matures - relativedelta(years=1), u0, u1, settle, principal * c / 200, DayCountConvention.{dcc})',
             pre=ORD + ['matures - relativedelta(years=1) < u0'], opaque=OP[:-1], at=f'{cls}.calculate_accrued_interest')
    S.eq(f'{cls} full price at purchase', A + T + ', price: num', f'''
b = {B.format('price=price')}
return (b.full_price, b.get_full_price(), b.price)
''', '''
f = price + 100 * accrued(matures - relativedelta(years=1), u0, u1, Scheduler.calculate_settlement_date(purchase_date=bought, settlement_convention=SettlementConvention.T_PLUS_ONE_BUSINESS, holiday_calendar=cal), principal * c / 200, DayCountConvention.ACTUAL_OVER_ACTUAL) / principal
return (f, f, price)
''', pre=ORD, opaque=OP, at=f'{cls}.get_full_price')
    S.eq(f'{cls} asking for a price at another date changes nothing', A + T + ', price: num, day: date', f'''
b = {B.format('price=price')}
b.get_full_price(day)
return (b.full_price, b.accrued_interest, b.settlement_date)
''', f'''
b = {B.format('price=price')}
b.get_full_price(day)
c = {B.format('price=price')}
return (c.full_price, c.accrued_interest, c.settlement_date)
''', pre=ORD, opaque=OP, at=f'{cls}.get_full_price')
    S.eq(f'{cls} accrued interest over ten years of coupons', A + ', day: date', f'bond({cls}, 100, c, principal, bought, matures, cal).calculate_accrued_interest(day)', f'''
b = bond({cls}, 100, c, principal, bought, matures, cal)
return accrued_general(b, Scheduler.calculate_settlement_date(purchase_date=day, settlement_convention=SettlementConvention.T_PLUS_ONE_BUSINESS, holiday_calendar=cal))
''', opaque=OP, at=f'{cls}.calculate_accrued_interest')
    S.eq(f'{cls} zero coupon accrues nothing', A, f'''
b = bond({cls}, 97, c, principal, bought, matures, cal, PaymentFrequency.ZERO_COUPON)
return (b.accrued_interest, b.full_price, b.calculate_accrued_interest(bought))
''', '(0, 97, 0)', opaque=OP, at=f'{cls}.calculate_accrued_interest')
