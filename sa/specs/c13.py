from ob import Spec

IMPORTS = '''
import itertools
from datetime import date, timedelta
from dateutil.relativedelta import relativedelta
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.holidays import Holiday
from fixedIncome.src.scheduling_tools.schedule_enumerations import BusinessDayAdjustment, SettlementConvention, PaymentFrequency, DayCountConvention
from fixedIncome.src.assets.base_cashflow import Payment, Cashflow, CashflowKeys
from fixedIncome.src.curves.curve_enumerations import CurveIndex
from fixedIncome.src.curves.base_curve import DiscountCurve, KnotValuePair
from fixedIncome.src.assets.rates.linear_rates.interest_rate_swap import InterestRateSwapDirection, SwapAccrual, TermInterestRateSwap, OvernightIndexSwap
'''
HELP = '''
class Stub(DiscountCurve):
    def __init__(self, ref, f):
        self.reference_date = ref
        self.f = f
    def __call__(self, date_obj, adjustment=None):
        return self.f(date_obj)

def swap(cls, rate, notional, bought, cal, tenor='10Y', fl=PaymentFrequency.QUARTERLY, fx=PaymentFrequency.SEMI_ANNUAL, fld=DayCountConvention.ACTUAL_OVER_360,
         fxd=DayCountConvention.THIRTY_OVER_THREESIXTY, way=InterestRateSwapDirection.RECEIVER_FIXED, conv=SettlementConvention.T_PLUS_TWO_BUSINESS,
         fixing=SettlementConvention.T_MINUS_TWO_BUSINESS, delay=SettlementConvention.T_PLUS_ONE_BUSINESS, adj=BusinessDayAdjustment.MODIFIED_FOLLOWING):
    return cls(float_index=CurveIndex.SOFR, direction=way, fixed_rate=rate, notional=notional, purchase_date=bought, settlement_convention=conv, tenor=tenor,
               floating_leg_payment_frequency=fl, fixed_leg_payment_frequency=fx, floating_leg_day_count_convention=fld, fixed_leg_day_count_convention=fxd,
               holiday_calendar=cal, fixing_date_for_accrual_period=fixing, payment_delay=delay, business_day_adjustment=adj)

def settles(day, conv, cal):
    return Scheduler.calculate_settlement_date(purchase_date=day, settlement_convention=conv, holiday_calendar=cal)

def back(start, end, months):
    out = []
    k = 0
    while end + k * relativedelta(months=-months) >= start and k < 1000:
        out.append(end + k * relativedelta(months=-months))
        k += 1
    return out[::-1]

def periods(start, end, months, move, cal, dcc):
    ds = [move(d, holiday_calendar=cal) for d in back(start, end, months)]
    return [SwapAccrual(ds[k], ds[k + 1], None, DayCountCalculator.compute_accrual_length(ds[k], ds[k + 1], dcc)) for k in range(len(ds) - 1)]

def pays(c):
    return [(p.payment_date, p.payment) for p in c]

class GivenTerm(TermInterestRateSwap):
    def __init__(self, fixed, floating, **kw):
        self.fixed, self.floating = fixed, floating
        super().__init__(**kw)
    def generate_fixed_leg_accrual_schedule(self):
        return self.fixed
    def generate_floating_leg_accrual_schedule(self):
        return self.floating

class GivenOis(OvernightIndexSwap):
    def __init__(self, fixed, floating, **kw):
        self.fixed, self.floating = fixed, floating
        super().__init__(**kw)
    def generate_fixed_leg_accrual_schedule(self):
        return self.fixed
    def generate_floating_leg_accrual_schedule(self):
        return self.floating

def given(cls, fixed, floating, rate, notional, bought, cal, way=InterestRateSwapDirection.RECEIVER_FIXED, delay=SettlementConvention.T_PLUS_ONE_BUSINESS,
          fixing=SettlementConvention.T_MINUS_TWO_BUSINESS):
    return cls(fixed, floating, float_index=CurveIndex.SOFR, direction=way, fixed_rate=rate, notional=notional, purchase_date=bought,
               settlement_convention=SettlementConvention.T_PLUS_TWO_BUSINESS, tenor='10Y',
               floating_leg_payment_frequency=PaymentFrequency.QUARTERLY, fixed_leg_payment_frequency=PaymentFrequency.SEMI_ANNUAL,
               floating_leg_day_count_convention=DayCountConvention.ACTUAL_OVER_360, fixed_leg_day_count_convention=DayCountConvention.THIRTY_OVER_THREESIXTY,
               holiday_calendar=cal, fixing_date_for_accrual_period=fixing, payment_delay=delay)

def legs(accruals, amount, cal, delay):
    return sorted([(settles(a.end_accrual, delay, cal), amount(a)) for a in accruals], key=lambda t: t[0])

def compounded(rate, start, end, cal):
    days = Scheduler.generate_business_days(start_date=start, end_date=end, holiday_calendar=cal)
    growth, length = 1, 0
    for a, b in itertools.pairwise(days):
        t = DayCountCalculator.compute_accrual_length(a, b, DayCountConvention.ACTUAL_OVER_360)
        growth *= 1 + rate(a) * t
        length += t
    return (growth - 1) / length
'''
OP = ('Scheduler.add_business_days', 'Scheduler.is_business_day', 'Scheduler.following_date_adjustment', 'Scheduler.modified_following_date_adjustment',
      'Scheduler.calculate_settlement_date', 'DayCountCalculator.compute_accrual_length', 'Scheduler.generate_business_days')
S = Spec('C13', IMPORTS, HELP)
A = 'rate: num, notional: num, bought: date, cal: dict:str:obj:Holiday'
for cls in ('TermInterestRateSwap', 'OvernightIndexSwap'):
    MK = f'swap({cls}, rate, notional, bought, cal{{}})'
    START = 'settles(bought, SettlementConvention.T_PLUS_TWO_BUSINESS, cal)'
    for leg, kw, name in (('fixed', 'fx', 'generate_fixed_leg_accrual_schedule'), ('floating', 'fl', 'generate_floating_leg_accrual_schedule')):
        dcc0 = 'DayCountConvention.THIRTY_OVER_THREESIXTY' if leg == 'fixed' else 'DayCountConvention.ACTUAL_OVER_360'
        for freq, m in (('QUARTERLY', 3), ('SEMI_ANNUAL', 6), ('ANNUAL', 12)):
            S.eq(f'{cls} {leg} periods {freq}', A, MK.format(f', {kw}=PaymentFrequency.{freq}') + f'.{name}()',
                 f'periods({START}, {START} + relativedelta(years=10), {m}, Scheduler.modified_following_date_adjustment, cal, {dcc0})', opaque=OP, at=f'{cls}.{name}',
                 wrong=f'periods({START}, {START} + relativedelta(years=10), {2 * m}, Scheduler.modified_following_date_adjustment, cal, {dcc0})')
        for bad in ('MONTHLY', 'ZERO_COUPON'):
            S.eq(f'{cls} {leg} periods {bad} are rejected', A, MK.format(f', {kw}=PaymentFrequency.{bad}') + f'.{name}()', 'raise ValueError', opaque=OP, at=f'{cls}.{name}')
        S.eq(f'{cls} {leg} periods of eighteen months, following', A,
             MK.format(f", tenor='18M', {kw}=PaymentFrequency.SEMI_ANNUAL, {kw}d=DayCountConvention.ACTUAL_OVER_ACTUAL, conv=SettlementConvention.T_PLUS_ONE_BUSINESS, adj=BusinessDayAdjustment.FOLLOWING") + f'.{name}()',
             "s = settles(bought, SettlementConvention.T_PLUS_ONE_BUSINESS, cal)\nreturn periods(s, s + relativedelta(months=18), 6, Scheduler.following_date_adjustment, cal, DayCountConvention.ACTUAL_OVER_ACTUAL)",
             opaque=OP, at=f'{cls}.{name}')
    for t, d in (('10Y', 'years=10'), ('3M', 'months=3'), ('18M', 'months=18'), ('1Y', 'years=1'), ('30Y', 'years=30')):
        S.eq(f'{cls} lasts {t}', A, f"x = {MK.format(f', tenor={t!r}')}\nreturn (x.start_accrual_date, x.end_accrual_date)", f'({START}, {START} + relativedelta({d}))', opaque=OP,
             at=f'{cls}.calculate_start_end_accrual_dates')
    S.eq(f'{cls} a tenor in weeks is rejected', A, MK.format(", tenor='10W'"), 'raise ValueError', opaque=OP, at=f'{cls}.calculate_start_end_accrual_dates')
    S.eq(f'{cls} an unknown date adjustment is rejected', A, MK.format(", adj=None"), 'raise ValueError', opaque=OP, at=f'{cls}._create_date_adjustment_function')
    S.eq(f'{cls} curve knot', A, MK.format('') + '.to_knot_value_pair()', f'KnotValuePair({START} + relativedelta(years=10), rate)', opaque=OP, at=f'{cls}.to_knot_value_pair')

G = 'fixed: seq:obj:SwapAccrual, floating: seq:obj:SwapAccrual, ' + A
for cls, real in (('GivenTerm', 'TermInterestRateSwap'), ('GivenOis', 'OvernightIndexSwap')):
    for delay in ('T_PLUS_TWO_BUSINESS', 'T_PLUS_ZERO_BUSINESS'):
        mk = f'given({cls}, fixed, floating, rate, notional, bought, cal, delay=SettlementConvention.{delay})'
        S.eq(f'{real} fixed payments {delay}', G, f'pays({mk}.generate_fixed_leg_cashflow())',
             f'legs(fixed, lambda a: a.accrual_factor * notional * rate, cal, SettlementConvention.{delay})', opaque=OP, at=f'{real}.generate_fixed_leg_cashflow',
             wrong=f'legs(floating, lambda a: a.accrual_factor * notional * rate, cal, SettlementConvention.{delay})')
    mk = f'given({cls}, fixed, floating, rate, notional, bought, cal)'
    S.eq(f'{real} keeps the fixed leg when asked', G, f'x = {mk}\nc = x.generate_fixed_leg_cashflow(True)\nreturn (pays(x.fixed_leg), pays(x[CashflowKeys.FIXED_LEG]), x.floating_leg)',
         'c = legs(fixed, lambda a: a.accrual_factor * notional * rate, cal, SettlementConvention.T_PLUS_ONE_BUSINESS)\nreturn (c, c, None)', opaque=OP, at=f'{real}.generate_fixed_leg_cashflow')
    S.eq(f'{real} leaves the legs alone otherwise', G + ', f: fn:num', f'x = {mk}\nx.generate_fixed_leg_cashflow(False)\nx.generate_floating_leg_cashflow(f, False)\nreturn (x.fixed_leg, x.floating_leg)',
         '(None, None)', opaque=OP + ('OvernightIndexSwap.calculate_annualized_rate',), at=f'{real}.generate_floating_leg_cashflow')
for fixing in ('T_MINUS_TWO_BUSINESS', 'T_PLUS_ZERO_BUSINESS'):
    mk = f'given(GivenTerm, fixed, floating, rate, notional, bought, cal, fixing=SettlementConvention.{fixing})'
    ref = f'legs(floating, lambda a: a.accrual_factor * notional * f(settles(a.start_accrual, SettlementConvention.{fixing}, cal)), cal, SettlementConvention.T_PLUS_ONE_BUSINESS)'
    S.eq(f'TermInterestRateSwap floating payments fixed {fixing}', G + ', f: fn:num', f'x = {mk}\nc = x.generate_floating_leg_cashflow(f)\nreturn (pays(c), pays(x.floating_leg), x.fixed_leg)',
         f'c = {ref}\nreturn (c, c, None)', opaque=OP, at='TermInterestRateSwap.generate_floating_leg_cashflow')
mk = 'given(GivenOis, fixed, floating, rate, notional, bought, cal)'
S.eq('OvernightIndexSwap floating payments', G + ', f: fn:num', f'x = {mk}\nc = x.generate_floating_leg_cashflow(f)\nreturn (pays(c), pays(x.floating_leg), x.fixed_leg)',
     'c = legs(floating, lambda a: a.accrual_factor * notional * compounded(f, a.start_accrual, a.end_accrual, cal), cal, SettlementConvention.T_PLUS_ONE_BUSINESS)\nreturn (c, c, None)',
     opaque=OP, at='OvernightIndexSwap.generate_floating_leg_cashflow')
S.eq('OvernightIndexSwap compounds overnight rates', G + ', f: fn:num, a: date, b: date', f'{mk}.calculate_annualized_rate(f, a, b)', 'compounded(f, a, b, cal)', opaque=OP,
     at='OvernightIndexSwap.calculate_annualized_rate', wrong='compounded(f, a, b, cal) + 1')

for cls in ('TermInterestRateSwap', 'OvernightIndexSwap'):
    S.eq(f'{cls} keeps its terms', A, f's = swap({cls}, rate, notional, bought, cal)\nx = swap({cls}, rate, notional, bought, cal, "18M", PaymentFrequency.ANNUAL, PaymentFrequency.QUARTERLY, DayCountConvention.ACTUAL_OVER_365, DayCountConvention.ACTUAL_OVER_ACTUAL, InterestRateSwapDirection.PAYER_FIXED, SettlementConvention.T_PLUS_ONE_BUSINESS, SettlementConvention.T_MINUS_ONE_BUSINESS, SettlementConvention.T_PLUS_TWO_BUSINESS, BusinessDayAdjustment.FOLLOWING)\n'
         + 'return [(i.float_index, i.direction, i.fixed_rate, i.notional, i.purchase_date, i.settlement_convention, i.tenor, i.floating_leg_payment_frequency, i.fixed_leg_payment_frequency, i.floating_leg_day_count_convention, i.fixed_leg_day_count_convention, i.fixing_date_for_accrual_period, i.payment_delay, i.business_day_adjustment, i.fixed_leg, i.floating_leg, i.to_knot_value_pair().knot == i.end_accrual_date, i.to_knot_value_pair().value) for i in (s, x)]',
         'return [(CurveIndex.SOFR, InterestRateSwapDirection.RECEIVER_FIXED, rate, notional, bought, SettlementConvention.T_PLUS_TWO_BUSINESS, "10Y", PaymentFrequency.QUARTERLY, PaymentFrequency.SEMI_ANNUAL, DayCountConvention.ACTUAL_OVER_360, DayCountConvention.THIRTY_OVER_THREESIXTY, SettlementConvention.T_MINUS_TWO_BUSINESS, SettlementConvention.T_PLUS_ONE_BUSINESS, BusinessDayAdjustment.MODIFIED_FOLLOWING, None, None, True, rate), '
         '(CurveIndex.SOFR, InterestRateSwapDirection.PAYER_FIXED, rate, notional, bought, SettlementConvention.T_PLUS_ONE_BUSINESS, "18M", PaymentFrequency.ANNUAL, PaymentFrequency.QUARTERLY, DayCountConvention.ACTUAL_OVER_365, DayCountConvention.ACTUAL_OVER_ACTUAL, SettlementConvention.T_MINUS_ONE_BUSINESS, SettlementConvention.T_PLUS_TWO_BUSINESS, BusinessDayAdjustment.FOLLOWING, None, None, True, rate)]', opaque=OP, at=f'{cls}.__init__')
