from ob import Spec

S = Spec('C08', '''
from datetime import date, datetime, timedelta
from dateutil.relativedelta import relativedelta
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.holidays import Holiday
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentFrequency, BusinessDayAdjustment, DayCountConvention, SettlementConvention
from fixedIncome.src.assets.base_cashflow import CashflowKeys
from fixedIncome.src.curves.base_curve import KnotValuePair
from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond
from fixedIncome.src.assets.credit.corporate_bond import FixedRateBond
''', '''
def bond(cls, price, c, principal, tenor, bought, matures, cal, freq=PaymentFrequency.SEMI_ANNUAL, adj=BusinessDayAdjustment.FOLLOWING, conv=SettlementConvention.T_PLUS_ONE_BUSINESS):
    return cls(price=price, coupon_rate=c, principal=principal, tenor=tenor, purchase_date=bought, maturity_date=matures, holiday_calendar=cal,
               payment_frequency=freq, business_day_adjustment=adj, settlement_convention=conv)

def coupons(b):
    return [(p.payment_date, p.unadjusted_payment_date, p.payment) for p in b[CashflowKeys.COUPON_PAYMENTS]]

def dates(first_after, matures, months):
    out = []
    k = 0
    while matures + k * relativedelta(months=-months) >= first_after and k < 1000:
        out.append(matures + k * relativedelta(months=-months))
        k += 1
    return out

def schedule(ds, amount, move, cal):
    return sorted([(move(d, holiday_calendar=cal), d, amount) for d in ds], key=lambda t: t[0])
''')
OP = ('Scheduler.add_business_days', 'Scheduler.is_business_day', 'Scheduler.following_date_adjustment', 'Scheduler.modified_following_date_adjustment',
      'UsTreasuryBond.calculate_accrued_interest', 'FixedRateBond.calculate_accrued_interest')
A = 'price: num, c: num, principal: num, bought: date, matures: date, cal: dict:str:obj:Holiday'
for cls in ('UsTreasuryBond', 'FixedRateBond'):
    for freq, m, n in (('QUARTERLY', 3, 4), ('SEMI_ANNUAL', 6, 2), ('ANNUAL', 12, 1)):
        for adj, mv in (('FOLLOWING', 'following_date_adjustment'), ('MODIFIED_FOLLOWING', 'modified_following_date_adjustment')):
            S.eq(f'{cls} coupons {freq} {adj}', A, f"coupons(bond({cls}, price, c, principal, '10Y', bought, matures, cal, PaymentFrequency.{freq}, BusinessDayAdjustment.{adj}))",
                 f'schedule(dates(matures - relativedelta(years=10) + timedelta(1), matures, {m}), principal * c / {100 * n}, Scheduler.{mv}, cal)',
                 opaque=OP, at=f'{cls}.create_coupon_payments_cashflow')
    FIX = f"bond({cls}, price, c, principal, '10Y', bought, matures, cal)"
    for t, months in (('1Y', 12), ('18M', 18), ('30Y', 360), ('6M', 6)):
        S.eq(f'{cls} interest starts {t} before maturity', A, f"bond({cls}, price, c, principal, '{t}', bought, matures, cal).dated_date", f'matures - relativedelta(months={months})',
             opaque=OP, at=f'{cls}.calculate_dated_date', wrong=f'matures - relativedelta(months={months + 1})')
    S.eq(f'{cls} interest starts its tenor in years before maturity', A + ', k: int', f"bond({cls}, price, c, principal, f'{{k}}Y', bought, matures, cal).dated_date",
         'matures - relativedelta(years=k)', pre=['k >= 1', 'k <= 99'], opaque=OP + (f'{cls}.create_coupon_payments_cashflow',), at=f'{cls}.calculate_dated_date')
    S.eq(f'{cls} coupons over eighteen months', A, f"coupons(bond({cls}, price, c, principal, '18M', bought, matures, cal))",
         'schedule(dates(matures - relativedelta(months=18) + timedelta(1), matures, 6), principal * c / 200, Scheduler.following_date_adjustment, cal)',
         opaque=OP, at=f'{cls}.create_coupon_payments_cashflow')
    S.eq(f'{cls} repays the principal at the adjusted maturity', A, f'[(p.payment_date, p.unadjusted_payment_date, p.payment) for p in {FIX}[CashflowKeys.SINGLE_PAYMENT]]',
         '[(Scheduler.following_date_adjustment(matures, holiday_calendar=cal), matures, principal)]', opaque=OP, at=f'{cls}.create_principal_repayment_cashflow',
         wrong='[(matures, matures, principal)]')
    S.eq(f'{cls} repays the principal modified following', A,
         f"[(p.payment_date, p.unadjusted_payment_date, p.payment) for p in bond({cls}, price, c, principal, '10Y', bought, matures, cal, adj=BusinessDayAdjustment.MODIFIED_FOLLOWING)[CashflowKeys.SINGLE_PAYMENT]]",
         '[(Scheduler.modified_following_date_adjustment(matures, holiday_calendar=cal), matures, principal)]', opaque=OP, at=f'{cls}.create_principal_repayment_cashflow')
    S.eq(f'{cls} zero coupon has no coupons', A, f'''
b = bond({cls}, price, c, principal, '1Y', bought, matures, cal, PaymentFrequency.ZERO_COUPON)
return (coupons(b), b.coupon_payment, b.full_price, [p.payment for p in b[CashflowKeys.SINGLE_PAYMENT]])
''', '([], 0, price, [principal])', opaque=OP[:-2], at=f'{cls}.create_coupon_payments_cashflow')
    S.eq(f'{cls} monthly coupons are rejected', A, f"bond({cls}, price, c, principal, '10Y', bought, matures, cal, PaymentFrequency.MONTHLY)", 'raise ValueError', opaque=OP,
         at=f'{cls}.create_coupon_payments_cashflow')
    S.eq(f'{cls} an unknown date adjustment is rejected', A, f"bond({cls}, price, c, principal, '10Y', bought, matures, cal, adj='NONE')", 'raise ValueError', opaque=OP,
         at=f'{cls}.create_date_adjustment_function')
    S.eq(f'{cls} a tenor in weeks is rejected', A, f"bond({cls}, price, c, principal, '10W', bought, matures, cal)", 'raise ValueError', opaque=OP, at=f'{cls}.calculate_dated_date')
    S.eq(f'{cls} curve knot is the clean price at the last payment date', A, f'{FIX}.to_knot_value_pair()', '''
ds = [Scheduler.following_date_adjustment(d, holiday_calendar=cal) for d in dates(matures - relativedelta(years=10) + timedelta(1), matures, 6)]
if not ds:
    return KnotValuePair(Scheduler.following_date_adjustment(matures, holiday_calendar=cal), price)
return KnotValuePair(max(sorted(ds)[-1], Scheduler.following_date_adjustment(matures, holiday_calendar=cal)), price)
''', opaque=OP, at=f'{cls}.to_knot_value_pair')
    for conv in ('T_PLUS_ZERO_BUSINESS', 'T_PLUS_ONE_BUSINESS', 'T_PLUS_TWO_BUSINESS', 'T_PLUS_THREE_BUSINESS'):
        S.eq(f'{cls} settles {conv}', A, f"bond({cls}, price, c, principal, '10Y', bought, matures, cal, conv=SettlementConvention.{conv}).settlement_date",
             f'Scheduler.calculate_settlement_date(bought, SettlementConvention.{conv}, cal)', opaque=OP + ('Scheduler.calculate_settlement_date',), at=f'{cls}.__init__')
S.eq('both bond classes agree', A, "coupons(bond(FixedRateBond, price, c, principal, '10Y', bought, matures, cal))", "coupons(bond(UsTreasuryBond, price, c, principal, '10Y', bought, matures, cal))",
     opaque=OP, at='FixedRateBond.create_coupon_payments_cashflow')
