import c31
from ob import Spec

HELP = '''
def built(v, s, x, a, b, h):
    return DoublyMeanRevertingVasicek.from_volatility_shape_parameters({CalibrationParamterType.VOLATILITY: list(v), CalibrationParamterType.SHAPE: list(s), CalibrationParamterType.STATE_VARIABLES: list(x)}, start_datetime=a, end_datetime=b, dt=h)
def row(x, n):
    return tuple(x[i] for i in range(n))
def shown(y, d):
    return (y(d), y.interpolation_values, y.interpolation_space, y.reference_date)
def opt(ms, c):
    return PortfolioOptimizer(np.array(ms), np.array([[c[0], c[1]], [c[1], c[2]]]))
'''

S = Spec('C32', c31.S.imports + '''
from datetime import timedelta
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import Weekdays
from fixedIncome.src.scheduling_tools.holidays import generate_all_holidays, generate_holiday_dates, get_next_weekday, us_federal_holiday_adjustment
from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurveFactory
from fixedIncome.src.portfolio.portfolio_optimization import PortfolioOptimizer
from fixedIncome.src.curves.credit_curves.default_models import default_bernoulli_paths
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import CalibrationParamterType
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.doubly_mean_reverting_vasicek import DoublyMeanRevertingVasicek
''', c31.S.helpers + HELP)
OP = c31.OP
DCC = ('DayCountCalculator.compute_accrual_length',)


def again(name, args, first, then, at, build='', change='', pre=(), opaque=OP, control=True, then2=None):
    """the answer is what it would have been had nothing been asked before"""
    b = build + '\n' if build else ''
    ch = change + '\n' if change else ''
    S.eq(name, args, f'{b}try:\n    {first}\nexcept Exception:\n    pass\n{ch}return {then}', f'{b}{ch}return {then2 or then}', pre=list(pre), opaque=opaque, at=at,
         wrong=f'{b}{ch}return {first}' if control else None)


# dates
D = 'a: date, b: date, c: date, d: date, n: int, m: int, h: dict:str:obj:Holiday, k: dict:str:obj:Holiday, t: rd, w: rd'
for q, one, two in (('is_business_day', 'a, h', 'a, k'), ('is_business_day', 'b, h', 'a, h')):
    again(f'{q}({two}) after {q}({one})', D, f'Scheduler.{q}({one})', f'Scheduler.{q}({two})', f'Scheduler.{q}', opaque=())
NOT = ('Scheduler.is_business_day',)
for q, one, two in (('add_business_days', 'a, n, h', 'a, n, k'), ('add_business_days', 'a, n, h', 'a, m, h'), ('add_business_days', 'b, n, h', 'a, n, h'),
                    ('following_date_adjustment', 'a, h', 'a, k'), ('following_date_adjustment', 'b, h', 'a, h'), ('modified_following_date_adjustment', 'a, h', 'a, k'), ('modified_following_date_adjustment', 'b, h', 'a, h'),
                    ('generate_business_days', 'a, b, h', 'a, b, k'), ('generate_business_days', 'a, c, h', 'a, b, h'),
                    ('calculate_settlement_date', 'a, SettlementConvention.T_PLUS_TWO_BUSINESS, h', 'a, SettlementConvention.T_PLUS_TWO_BUSINESS, k'),
                    ('calculate_settlement_date', 'a, SettlementConvention.T_PLUS_TWO_BUSINESS, h', 'a, SettlementConvention.T_PLUS_THREE_BUSINESS, h'),
                    ('calculate_settlement_date', 'b, SettlementConvention.T_PLUS_TWO_BUSINESS, h', 'a, SettlementConvention.T_PLUS_TWO_BUSINESS, h'),
                    ('generate_dates_by_increments', 'a, b, t', 'a, b, w'), ('generate_dates_by_increments', 'a, c, t', 'a, b, t'), ('generate_dates_by_increments', 'c, b, t', 'a, b, t'), ('generate_dates_by_increments', 'a, b, t, n', 'a, b, t, m'),
                    ('get_next_weekday', 'a, Weekdays.MONDAY', 'a, Weekdays.FRIDAY'), ('get_next_weekday', 'b, Weekdays.MONDAY', 'a, Weekdays.MONDAY')):
    again(f'{q}({two}) after {q}({one})', D, f'Scheduler.{q}({one})', f'Scheduler.{q}({two})', f'Scheduler.{q}', opaque=NOT)
Y = 'x: int, y: int, z: int, h: dict:str:obj:Holiday, k: dict:str:obj:Holiday, n: str, m: str, a: date, b: date'
for q, one, two in (('generate_all_holidays', 'x, y, h', 'x, y, k'), ('generate_all_holidays', 'x, z, h', 'x, y, h'), ('generate_all_holidays', 'z, y, h', 'x, y, h'),
                    ('generate_holiday_dates', 'm, x, y, h', 'n, x, y, h'), ('generate_holiday_dates', 'n, x, y, k', 'n, x, y, h'), ('generate_holiday_dates', 'n, x, z, h', 'n, x, y, h'), ('generate_holiday_dates', 'n, z, y, h', 'n, x, y, h'),
                    ('us_federal_holiday_adjustment', 'b', 'a'), ('get_next_weekday', 'a, Weekdays.MONDAY', 'a, Weekdays.FRIDAY'), ('get_next_weekday', 'b, Weekdays.MONDAY', 'a, Weekdays.MONDAY')):
    again(f'holidays: {q}({two}) after {q}({one})', Y, f'{q}({one})', f'{q}({two})', q, opaque=(), control=q != 'generate_all_holidays')
CONV = ('ACTUAL_OVER_360', 'ACTUAL_OVER_365', 'ACTUAL_OVER_365_POINT_25', 'THIRTY_OVER_THREESIXTY', 'ACTUAL_OVER_ACTUAL')
for i, conv in enumerate(CONV):
    other = CONV[i - 1]
    for one, two in ((f'a, b, DayCountConvention.{other}', f'a, b, DayCountConvention.{conv}'), (f'a, c, DayCountConvention.{conv}', f'a, b, DayCountConvention.{conv}'), (f'c, b, DayCountConvention.{conv}', f'a, b, DayCountConvention.{conv}')):
        again(f'accrual({two}) after ({one})', 'a: date, b: date, c: date', f'DayCountCalculator.compute_accrual_length({one})', f'DayCountCalculator.compute_accrual_length({two})', DCC[0], opaque=(), control=False)
        if conv[0] != 'T' and not conv.endswith('ACTUAL'):
            again(f'accrual of instants({two}) after ({one})', 'a: datetime, b: datetime, c: datetime', f'DayCountCalculator.compute_accrual_length({one})', f'DayCountCalculator.compute_accrual_length({two})', DCC[0], opaque=(), control=False)
        if 'b, D' in one:
            again(f'accrual from an instant({two}) after ({one})', 'a: datetime, b: date, c: date', f'DayCountCalculator.compute_accrual_length({one})', f'DayCountCalculator.compute_accrual_length({two})', DCC[0], opaque=(), control=False)


def asked(name, args, build, other, questions, at, pre=(), opaque=OP, var='o', me='c', guard=True):
    """each question, after the same was asked with other arguments, and after it was asked of another object"""
    for q, o in questions:
        if o and o != q:
            again(f'{name}: {q} after {o}', args, o, q, at, build=build, pre=pre, opaque=opaque, control=False)
        ask = q.replace(me + '.', var + '.').replace(me + '(', var + '(').replace(me + '[', var + '[')
        mk = f'try:\n    {other.replace(chr(10), chr(10) + "    ")}\n    ' if guard else f'{other}\ntry:\n    '
        S.eq(f'{name}: {q} after the same of another', args, f'{mk}{ask}\nexcept Exception:\n    pass\n{build}\nreturn {q}', f'{build}\nreturn {q}', pre=list(pre), opaque=opaque, at=at)


def changed(name, args, build, q, change, built, at, pre=(), opaque=OP, tag='', control=True):
    """each question, after it was asked and the object changed"""
    for i, one in enumerate(q):
        b2 = built if built is not None else f'{build}\n{change}'
        S.eq(f'{name}: {one} after {tag or change}', args, f'{build}\ntry:\n    {one}\nexcept Exception:\n    pass\n{change}\nreturn {one}', f'{b2}\nreturn {one}', pre=list(pre), opaque=opaque, at=at,
             wrong=f'{build}\nreturn {one}' if i == 0 and control else None)


# payments
A = 'ps: seq:obj:Payment, qs: seq:obj:Payment, r: date, t: date, f: fn:num, g: fn:num, i: int, j: int, v: num'
asked('cashflow', A, 'c = Cashflow(ps)', 'o = Cashflow(qs)', [('c.present_value(Flat(r, f))', 'c.present_value(Flat(t, g))'), ('c.get_payment_dates()', ''), ('c.get_payment_amounts()', ''), ('(c[i].payment_date, c[i].payment)', 'c[j]'), ('len(c)', ''), ('[(x.payment_date, x.payment) for x in c]', '')], 'Cashflow')
changed('cashflow', A, 'c = Cashflow(ps)', ['c.present_value(Flat(r, f))', 'c.get_payment_dates()', 'c.get_payment_amounts()', 'len(c)', '[(x.payment_date, x.payment) for x in c]'], 'c.add_payment(Payment(r, v))', None, 'Cashflow')
Z = 'd: date, p: num, e: date, q: num, r: date, f: fn:num, g: fn:num, t: date'
asked('zero coupon', Z, 'c = ZeroCoupon(d, p)', 'o = ZeroCoupon(e, q)', [('c.present_value(Flat(r, f))', 'c.present_value(Flat(t, g))'), ('c.to_knot_value_pair()', '')], 'ZeroCoupon')
SEE = '[(x.payment_date, x.payment) for x in c[CashflowKeys.FIXED_LEG]]'
asked('cashflow collection', A, 'c = Both([Cashflow(ps), Cashflow(qs)], [CashflowKeys.FIXED_LEG, CashflowKeys.FLOATING_LEG])', 'o = Both([Cashflow(qs), Cashflow(ps)], [CashflowKeys.FIXED_LEG, CashflowKeys.COUPON_PAYMENTS])',
      [(SEE, 'c[CashflowKeys.FLOATING_LEG]'), ('len(c)', ''), ('CashflowKeys.FLOATING_LEG in c', 'CashflowKeys.FIXED_LEG in c'), ('[len(x) for x in c]', '')], 'CashflowCollection')
changed('cashflow collection', A, 'c = Both([Cashflow(ps), Cashflow(qs)], [CashflowKeys.FIXED_LEG, CashflowKeys.FLOATING_LEG])', [SEE, 'len(c)', 'CashflowKeys.COUPON_PAYMENTS in c', '[len(x) for x in c]'],
        'c[CashflowKeys.FIXED_LEG] = Cashflow(qs)\nc[CashflowKeys.COUPON_PAYMENTS] = Cashflow(ps)', None, 'CashflowCollection', tag='a leg is replaced')
# bonds
A = ('u0: date, a0: date, u1: date, a1: date, price: num, k: num, principal: num, bought: date, matures: date, cal: dict:str:obj:Holiday, '
     'price2: num, k2: num, principal2: num, r: date, day: date, day2: date, f: fn:num, f2: fn:num, y: num, y2: num')
for cls, real in (('SomeTreasury', 'UsTreasuryBond'), ('SomeCorporate', 'FixedRateBond')):
    B = f'b = bond({cls}, [(u0, a0), (u1, a1)], price, k, principal, bought, matures, cal)'
    O = f'o = bond({cls}, [(u0, a0), (u1, a1)], price2, k2, principal2, bought, matures, cal)'
    Q = [('b.present_value(Flat(r, f))', 'b.present_value(Flat(r, f2))'), ('b.to_knot_value_pair()', ''), ('b.calculate_accrued_interest(day)', 'b.calculate_accrued_interest(day2)'), ('b.get_full_price(day)', 'b.get_full_price(day2)'),
         ('b.discount_cashflows_by_fixed_rate(y, day)', 'b.discount_cashflows_by_fixed_rate(y2, day)'), ('b.discount_cashflows_by_fixed_rate(y, day)', 'b.discount_cashflows_by_fixed_rate(y, day2)'),
         ('b.discount_cashflows_by_fixed_rate(y)', 'b.discount_cashflows_by_fixed_rate(y, day)'), ('b.yield_to_maturity(day)', 'b.yield_to_maturity(day2)'), ('b.yield_to_maturity()', 'b.yield_to_maturity(day)'), ('b.pv_deriv(y)', 'b.pv_deriv(y2)'),
         ('b.duration' if real == 'FixedRateBond' else 'b.duration()', ''), ('b.convexity' if real == 'FixedRateBond' else 'b.convexity()', ''), ('b.dated_date', ''), ('b.accrued_interest', ''), ('b.full_price', ''), ('b.coupon_payment', ''),
         ('b.is_payment_received(b[CashflowKeys.COUPON_PAYMENTS][0], day)', 'b.is_payment_received(b[CashflowKeys.COUPON_PAYMENTS][0], day2)'),
         ('b.create_date_adjustment_function()(day)', 'b.create_date_adjustment_function()(day2)')]
    if real == 'FixedRateBond':
        Q += [('b.macaulay_duration(y, day)', 'b.macaulay_duration(y2, day)'), ('b.macaulay_duration(y, day)', 'b.macaulay_duration(y, day2)')]
    asked(real, A, B, O, Q, real, pre=['u0 < u1', 'a0 < a1'], me='b')
    changed(real, A, B, [q for q, _ in Q if '.present_value' in q or 'discount_cash' in q or 'yield_to' in q or 'duration' in q or 'convexity' in q], 'b[CashflowKeys.COUPON_PAYMENTS] = Cashflow([BondPayment(payment_date=a1, payment=y2, unadjusted_payment_date=u1)])', None, real,
            pre=['u0 < u1', 'a0 < a1'], tag='its coupons are replaced')
# swaps
A = 'rate: num, notional: num, bought: date, cal: dict:str:obj:Holiday, s: date, e: date, w: num, u: num, v: num, r: date, d: fn:num, h: fn:num, rate2: num, notional2: num, w2: num, u2: num, v2: num, d2: fn:num, h2: fn:num, s2: date'
for cls, real in (('SomeTerm', 'TermInterestRateSwap'), ('SomeOis', 'OvernightIndexSwap')):
    one = lambda x, n: f'{x} = swap({cls}, [SwapAccrual(s, e, None, w{n})], [SwapAccrual(s, e, None, w{n})], rate{n}, notional{n}, bought, cal)\n{x}[CashflowKeys.FIXED_LEG] = Cashflow([Payment(s, v{n})])\n{x}[CashflowKeys.FLOATING_LEG] = Cashflow([Payment(s, u{n})])'
    PAYS = '[(p.payment_date, p.payment) for p in {}]'
    Q = [('x.present_value(Flat(r, d))', 'x.present_value(Flat(r, d2))'), ('x.to_knot_value_pair()', ''), (PAYS.format('x.generate_fixed_leg_cashflow(False)'), ''), (PAYS.format('x.fixed_leg'), ''), (PAYS.format('x.floating_leg'), ''),
         ('x.calculate_start_end_accrual_dates()', '')]
    if cls == 'SomeTerm':
        Q += [('x.implied_rate(Flat(r, d), h)', 'x.implied_rate(Flat(r, d2), h2)'), ('x.implied_rate(Flat(r, d), h)', 'x.implied_rate(Flat(r, d), h2)'), (PAYS.format('x.generate_floating_leg_cashflow(h, False)'), PAYS.format('x.generate_floating_leg_cashflow(h2, False)'))]
    else:
        Q += [('x.calculate_annualized_rate(h, s, e)', 'x.calculate_annualized_rate(h2, s, e)'), ('x.calculate_annualized_rate(h, s, e)', 'x.calculate_annualized_rate(h, s2, e)')]
    asked(real, A, one('x', ''), one('o', '2'), Q, real, me='x', guard=False)
    changed(real, A, one('x', ''), ['x.present_value(Flat(r, d))', PAYS.format('x.fixed_leg'), PAYS.format('x.floating_leg')], 'x[CashflowKeys.FIXED_LEG] = Cashflow([Payment(s, v2)])\nx[CashflowKeys.FLOATING_LEG] = Cashflow([Payment(s, u2)])', None, real, tag='its legs are replaced')
    changed(real, A, one('x', ''), ['x.present_value(Flat(r, d))', PAYS.format('x.fixed_leg')], 'x.generate_fixed_leg_cashflow()', None, real, tag='its fixed leg is generated')
    if cls == 'SomeTerm':
        changed(real, A, one('x', ''), ['x.present_value(Flat(r, d))', PAYS.format('x.floating_leg')], 'x.generate_floating_leg_cashflow(h)', None, real, tag='its floating leg is generated')
        changed(real, A, one('x', '') + '\nx.generate_floating_leg_cashflow(h2)', ['x.present_value(Flat(r, d))', PAYS.format('x.floating_leg')], 'x.generate_floating_leg_cashflow(h)', f'{one("x", "")}\nx.generate_floating_leg_cashflow(h)', real, tag='its floating leg is generated again')
# loans
A = 'p: num, i: num, o: date, t: rd, p2: num, i2: num, y: num, y2: num, xs: seq:num, ys: seq:num'
for when in ('START_OF_MONTH', 'END_OF_MONTH'):
    loan = lambda n, v: f'{v} = Loan(principal=p{n}, interest_rate=i{n}, origination_date=o, term_length=t, day_count_convention=DayCountConvention.THIRTY_OVER_THREESIXTY, payment_frequency=PaymentFrequency.MONTHLY, payment_time=PaymentTime.{when})'
    SCH = '[(q.payment_date, q.payment, q.interest, q.principal) for q in l.generate_payment_schedule({})]'
    asked(f'loan {when}', A, loan('', 'l'), loan('2', 'a'), [(SCH.format('y'), SCH.format('y2')), (SCH.format('y, xs'), SCH.format('y, ys')), (SCH.format('y'), SCH.format('y, ys')), ('l.calculate_fixed_payment_amount()', '')], 'Loan', me='l', var='a', guard=False)
# curves
A = 'ks: seq:obj:KnotValuePair, ls: seq:obj:KnotValuePair, r: date, t: date, d: date, e: date, f: fn:num, g: fn:num, ps: seq:obj:Payment, qs: seq:obj:Payment, i: int, v: num'
PRE = ['len(ks) > 0', 'sorted(ks, key=lambda p: p.knot)[-1].knot > r']
HELD = 'left=EndBehavior.CONSTANT, right=EndBehavior.CONSTANT'
KEPT = ('DayCountCalculator.compute_accrual_length',)
Q = [('c(d, f)', 'c(e, f)'), ('c(d, f)', 'c(d, g)'), ('c(d)', 'c(d, g)'), ('c(d, f)', 'c(d)'), ('c.interpolate(d)', 'c.interpolate(e)'), ('c.date_to_interpolation_axis(d)', 'c.date_to_interpolation_axis(e)'), ('c.interpolation_values', '')]
for method in ('LINEAR', 'PREVIOUS', 'QUADRATIC_SPLINE', 'CUBIC_SPLINE'):
    C = f'c = curve(ks, r, method=InterpolationMethod.{method}, {HELD})'
    asked(f'curve {method}', A, C, f'o = curve(ls, r, method=InterpolationMethod.{method}, {HELD})', Q, 'Curve', pre=PRE[:1])
    for change, tag in (('c.reset_interpolation_values(ls)', 'its knots are replaced'), ('c.reset_interpolation_value(KnotValuePair(e, v), i)', 'a knot is replaced')):
        changed(f'curve {method}', A, C, ['c(d, f)', 'c.interpolate(d)', 'c.date_to_interpolation_axis(d)', 'c.interpolation_values'], change, None, 'Curve', pre=PRE[:1], tag=tag)
asked('curve from another day', A, f'c = curve(ks, r, {HELD})', f'o = curve(ks, t, {HELD})', Q, 'Curve', pre=PRE[:1])
asked('curve of another method', A, f'c = curve(ks, r, {HELD})', f'o = curve(ks, r, method=InterpolationMethod.PREVIOUS, left=EndBehavior.ERROR, right=EndBehavior.ERROR)', Q, 'Curve', pre=PRE[:1])
asked('discount curve', A, f'c = discount(ks, r, {HELD})', f'o = discount(ls, r, {HELD})', [('c.present_value(Cashflow(ps))', 'c.present_value(Cashflow(qs))'), ('c(d, f)', 'c(d, g)'), ('c(d)', 'c(e)')], 'DiscountCurve', pre=PRE[:1])
changed('discount curve', A, f'c = discount(ks, r, {HELD})', ['c.present_value(Cashflow(ps))', 'c(d)'], 'c.reset_interpolation_values(ls)', None, 'DiscountCurve', pre=PRE[:1], tag='its knots are replaced')
# yield curves
A = 'ks: seq:obj:KnotValuePair, ls: seq:obj:KnotValuePair, r: date, t: date, d: date, e: date, f: fn:num, g: fn:num, a: date, b: date, w: num, w2: num, v: num'
for space in ('DISCOUNT_FACTOR', 'CONTINUOUSLY_COMPOUNDED_YIELD'):
    SP = f'InterpolationSpace.{space}'
    ONE = f'one = KeyRate(DayCountConvention.ACTUAL_OVER_ACTUAL, a, None, b)\nk2 = KeyRate(DayCountConvention.ACTUAL_OVER_ACTUAL, b, a, None)\ncol = KeyRateCollection(keyed([a, b]))\nz = Asset(KnotValuePair(e, 1), w)\nz2 = Asset(KnotValuePair(d, 1), w2)\n'
    Q = [('c.to_discount_curve()(d)', 'c.to_discount_curve(g)(d)'), ('c.to_discount_curve(f)(d)', 'c.to_discount_curve(g)(d)'), ('c.to_discount_curve(f)(d)', 'c.to_discount_curve()(d)'), ('c.present_value(z)', 'c.present_value(z2)'),
         ('c.present_value(z)', 'c.present_value(z, g)'), ('c.present_value(z, f)', 'c.present_value(z, g)'), ('c.present_value(z, f)', 'c.present_value(z)')]
    R = [('c.calculate_key_rate_deriv(z, one)', 'c.calculate_key_rate_deriv(z2, one)'), ('c.calculate_key_rate_deriv(z, one)', 'c.calculate_key_rate_deriv(z, k2)'), ('c.calculate_pv01_risk(z, one).pv01', 'c.calculate_pv01_risk(z2, one).pv01'),
         ('c.calculate_pv01_risk(z, one).pv01', 'c.calculate_pv01_risk(z, k2).pv01')]
    asked(f'yield curve of {space}', A, ONE + f'c = yields(ks, r, {SP})', f'o = yields(ls, r, {SP})', Q + R, 'YieldCurve', pre=PRE + ['a < b'], guard=False)
    changed(f'yield curve of {space}', A, ONE + f'c = yields(ks, r, {SP})', ['c.to_discount_curve()(d)', 'c.to_discount_curve(f)(d)', 'c.present_value(z)', 'c.calculate_key_rate_deriv(z, one)'], 'c.reset_interpolation_values(ls)', None, 'YieldCurve',
            pre=PRE + ['a < b', 'len(ls) > 0', 'sorted(ls, key=lambda p: p.knot)[-1].knot > r'], tag='its knots are replaced')
    changed(f'yield curve of {space}', A, ONE + f'c = yields(ks, r, {SP})', ['c.calculate_key_rate_deriv(z, one)', 'c.calculate_pv01_risk(z, one).pv01'], 'one.set_bump_val(v)', None, 'YieldCurve', pre=PRE + ['a < b'], tag='the bump is changed', control=False)
# key rates
A = 'a: date, b: date, e: date, x: date, y: date, p: date, n: date, p2: date, n2: date, u: num, v: num'
K = 'KeyRate(DayCountConvention.ACTUAL_OVER_ACTUAL, {})'
PRE = ['p < a', 'a < n', 'p2 < a', 'a < n2', 'p < b', 'b < n']
Q = [('k(x)', 'k(y)'), ('k.adjustment_fxcn(x)', 'k.adjustment_fxcn(y)'), ('(k.create_adjustment_function(), k(x))', 'k(y)'), ('k.bump_val', ''), ('k == ' + K.format('b'), '')]
for o in ('a, p2, n2', 'b, p, n', 'a', 'a, None, n', 'a, p, None'):
    asked('key rate', A, 'k = ' + K.format('a, p, n'), 'o = ' + K.format(o) + '\no.set_bump_val(u)', Q, 'KeyRate', pre=PRE, me='k')
for change in ('k.set_bump_val(u)', 'k.set_prior_date(p2)', 'k.set_next_date(n2)', 'k.set_prior_date(None)', 'k.set_next_date(None)'):
    changed('key rate', A, 'k = ' + K.format('a, p, n'), ['k(x)', '(k.create_adjustment_function(), k(x))', 'k.bump_val', '(k.prior_date, k.next_date)'], change, None, 'KeyRate', pre=PRE)
COL = 'c = KeyRateCollection(keyed([a, b]))\nj = ' + K.format('e')
PRE = ['a < b', 'b < e']
Q = [('c(x)', 'c(y)'), ('[q.key_rate_date for q in c]', ''), ('[q(x) for q in c]', '[q(y) for q in c]'), ('len(c)', ''), ('c[0](x)', 'c[1](x)'), ('j in c', 'c[0] in c'), ('c.index(c[1])', 'c.index(c[0])'), ('c[1].key_rate_date', 'c[0]'), ('bool(c)', '')]
asked('key rate collection', A, COL, 'o = KeyRateCollection(keyed([b, e]))', Q, 'KeyRateCollection', pre=PRE, guard=False)
asked('key rate collection and a shorter one', A, COL, 'o = KeyRateCollection(keyed([b]))', Q, 'KeyRateCollection', pre=PRE, guard=False)
for change in ('c.set_bump_val(u)', 'c.append(j)', 'c.insert(0, j)', 'del c[0]', 'c.pop()', 'c += [j]', 'c[0].set_bump_val(u)', 'c[1].set_prior_date(None)', 'c[0] = j'):
    changed('key rate collection', A, COL, [q for q, _ in Q[:7]], change, None, 'KeyRateCollection', pre=PRE)
# portfolios
A = 'n: num, m: num, a: obj:KnotValuePair, b: obj:KnotValuePair, f: fn:num, g: fn:num, cash: num, cash2: num, x: date'
DC = 'DayCountConvention.ACTUAL_OVER_ACTUAL'
asked('portfolio', A, 'q = Portfolio([PortfolioEntry(n, Asset(a, n)), PortfolioEntry(m, Asset(b, m))], cash)', 'o = Portfolio([PortfolioEntry(m, Asset(a, m))], cash2)',
      [('q.present_value(f)', 'q.present_value(g)'), (f'q.to_key_rate_collection({DC})(x)', 'q.to_key_rate_collection(DayCountConvention.ACTUAL_OVER_360)(x)'), (f'[k.day_count_convention for k in q.to_key_rate_collection({DC})]', 'q.to_key_rate_collection(DayCountConvention.ACTUAL_OVER_360)'),
       ('[e.quantity for e in q]', '')], 'Portfolio', pre=['a.knot < b.knot'], me='q', guard=False)
A = 'ds: seq:date, ps: seq:num, es: seq:date, qs: seq:num'
asked('risk ladder', A, 'l = RiskLadder([Risk(d, p, CurveIndex.SOFR) for d, p in zip(ds, ps)])', 'o = RiskLadder([Risk(d, p, CurveIndex.SOFR) for d, p in zip(es, qs)])', [('len(l)', ''), ('[(x.key_rate_date, x.pv01) for x in l]', '')], 'RiskLadder', me='l', guard=False)
# models
A = 'a: datetime, c: datetime, b: datetime, th: num, k: pos, s: pos, r: num, u: num, v: num, th2: num, k2: pos, s2: pos, r2: num, x: datetime, p: datetime, w: datetime, z: datetime'
PRE = ['a < c', 'c < b', 'a <= x', 'x < b', 'a <= z', 'z < b', 'a <= p', 'p < w', 'w <= b']
Q = [('m(x)', 'm(z)'), ('m.short_rate_variance(w)', 'm.short_rate_variance(z)'), ('m.expected_short_rate(w)', 'm.expected_short_rate(z)'), ('m.zero_coupon_bond_price(w)', 'm.zero_coupon_bond_price(z)'), ('m.zero_coupon_bond_price(w, p)', 'm.zero_coupon_bond_price(w)'),
     ('m.zero_coupon_bond_price(w)', 'm.zero_coupon_bond_price(w, p)'), ('m.yield_convexity(w)', 'm.yield_convexity(z)'), ('m.yield_volatility(w)', 'm.yield_volatility(z)'), ('m.yield_volatility(w, p)', 'm.yield_volatility(w)'),
     ('m.instantaneous_forward_rate(w)', 'm.instantaneous_forward_rate(z)'), ('m.instantaneous_forward_rate(w, p)', 'm.instantaneous_forward_rate(w)'), ('m.average_expected_short_rate(w)', 'm.average_expected_short_rate(z)'),
     ('m.instantaneous_forward_rate_volatility(w)', 'm.instantaneous_forward_rate_volatility(z)'), ('m.zero_coupon_bond_yield(w, p)', 'm.zero_coupon_bond_yield(w)'), ('list(m.price_convexities([w], p))', 'm.price_convexities([w], a)')]
M, N = 'm = vasicek(a, c, b, th, k, s, r, u, v)', 'n = vasicek(a, c, b, th2, k2, s2, r2, v, u)'
asked('one-factor short rate', A, M, N, Q, 'VasicekModel', pre=PRE, opaque=DCC, me='m', var='n', guard=False)
LASTING = [q for q in dict.fromkeys(q for q, _ in Q)]
for change, tag in (('m.generate_path(r2)', 'another path'), ('m.brownian_motion.dw = [[v, r2]]\nm.generate_path(r2)', 'a path of other shocks')):
    changed('one-factor short rate', A, M, LASTING, change, None, 'VasicekModel', pre=PRE, opaque=DCC, tag=tag)
A = 'a: datetime, c: datetime, b: datetime, mu: num, g: num, th: num, k: pos, s: pos, y: num, u: num, v: num, mu2: num, g2: num, th2: num, k2: pos, s2: pos, y2: num, x: datetime, p: datetime, w: datetime, z: datetime'
Q = [('m(x)', 'm(z)'), ('m.expected_state_variable_mean(w)', 'm.expected_state_variable_mean(z)'), ('m.expected_short_rate(w)', 'm.expected_short_rate(z)'), ('m.state_variable_covariance(w)', 'm.state_variable_covariance(z)'), ('m.short_rate_variance(w)', 'm.short_rate_variance(z)'),
     ('m.zero_coupon_bond_price(w)', 'm.zero_coupon_bond_price(z)'), ('m.zero_coupon_bond_price(w, p)', 'm.zero_coupon_bond_price(w)'), ('m.zero_coupon_bond_price(w)', 'm.zero_coupon_bond_price(w, p)'), ('m.yield_convexity(w)', 'm.yield_convexity(z)'), ('m.yield_volatility(w)', 'm.yield_volatility(z)'),
     ('m.instantaneous_forward_rate(w)', 'm.instantaneous_forward_rate(z)'), ('m.instantaneous_forward_rate(w, p)', 'm.instantaneous_forward_rate(w)'), ('m.average_expected_short_rate(w)', 'm.average_expected_short_rate(z)'), ('m.instantaneous_forward_rate_volatility(w)', 'm.instantaneous_forward_rate_volatility(z)'),
     ('m.zero_coupon_bond_yield(w)', 'm.zero_coupon_bond_yield(z)'), ('m.zero_coupon_bond_price_deriv_wrt_state_variables(w)', 'm.zero_coupon_bond_price_deriv_wrt_state_variables(z)'), ('m.zero_coupon_price_deriv_wrt_maturity(w)', 'm.zero_coupon_price_deriv_wrt_maturity(z)')]
M, N = 'm = one_factor(a, c, b, mu, g, th, k, s, y, u, v)', 'n = one_factor(a, c, b, mu2, g2, th2, k2, s2, y2, v, u)'
asked('state-variable short rate', A, M, N, Q, 'MultivariateVasicekModel', pre=PRE, opaque=DCC, me='m', var='n', guard=False)
for change, tag in (('m.generate_path(np.array([y2]))', 'another path'),):
    changed('state-variable short rate', A, M, [q for q in dict.fromkeys(q for q, _ in Q)], change, None, 'MultivariateVasicekModel', pre=PRE, opaque=DCC, tag=tag)
SETTING = 'm.parameter_calibration_dict[CalibrationParamterType.{}][:] = [{}]\nm.set_{}_parameters_from_dict()'
A = 'a: datetime, c: datetime, b: datetime, th: num, k: pos, s: pos, r: num, u: num, v: num, th2: num, k2: pos, s2: pos, x: datetime, p: datetime, w: datetime, z: datetime'
for change, tag in ((SETTING.format('VOLATILITY', 's2, k2', 'volatiltiy'), 'a change of the volatility and speed'), (SETTING.format('SHAPE', 'th2', 'shape'), 'a change of the mean')):
    changed('one-factor short rate', A, 'm = vasicek(a, c, b, th, k, s, r, u, v)', LASTING + ['list(m.generate_path(u)[0]) if m.path.ndim == 2 else list(m.generate_path(u))'], change, None, 'VasicekModel', pre=PRE, opaque=DCC, tag=tag, control=False)
# simulated motion
RAW = ('DayCountCalculator.compute_accrual_length', 'Scheduler.generate_dates_by_increments')
A = 'a: datetime, b: datetime, h: timedelta, g: timedelta, n: int, m: int, x: datetime, y: datetime'
ROWS = 'list((lambda w: (list(w[0][0]), list(w[1]), q.datetimes))({}))'
PRE = ['a < b', 'len(Scheduler.generate_dates_by_increments(start_date=a, end_date=b, increment=h, max_dates=1_000_000)) > 0', 'Scheduler.generate_dates_by_increments(start_date=a, end_date=b, increment=h, max_dates=1_000_000)[-1] >= b',
       'len(Scheduler.generate_dates_by_increments(start_date=a, end_date=b, increment=g, max_dates=1_000_000)) > 0', 'Scheduler.generate_dates_by_increments(start_date=a, end_date=b, increment=g, max_dates=1_000_000)[-1] >= b']
for first, then in (('generate_increments(h, m)', 'generate_increments(h, n)'), ('generate_increments(g, n)', 'generate_increments(h, n)')):
    again(f'brownian motion: {then} after {first}', A, ROWS.format('q.' + first), ROWS.format('q.' + then), 'BrownianMotion.generate_increments', build='q = BrownianMotion(a, b)', pre=PRE, opaque=RAW, control=False)
    p1, p2 = first.replace('generate_increments', 'generate_path'), then.replace('generate_increments', 'generate_path')
    again(f'brownian motion: {p2} after {p1}', A, f'list(q.{p1}[0])', f'list(q.{p2}[0])', 'BrownianMotion.generate_path', build='q = BrownianMotion(a, b)', pre=PRE, opaque=RAW, control=False)
    S.eq(f'brownian motion: {p2} after {p1} of another', A, f'o = BrownianMotion(a, b)\ntry:\n    o.{p1}\nexcept Exception:\n    pass\nq = BrownianMotion(a, b)\nreturn list(q.{p2}[0])', f'q = BrownianMotion(a, b)\nreturn list(q.{p2}[0])', pre=PRE, opaque=RAW, at='BrownianMotion.generate_path')
A = 'a: datetime, c: datetime, b: datetime, i: pos, j: pos, u: num, v: num, u2: num, v2: num, x0: num, x2: num, mu: fn:num, sg: fn:num, mu2: fn:num, sg2: fn:num, e: datetime, z: datetime, h: timedelta'
P = lambda q, n: f'{q} = DiffusionProcess({{"x": DriftDiffusionPair(lambda t, x: mu{n}(t, x[0]), lambda t, x: np.array([sg{n}(t, x[0])]))}}, Shocks(a, c, b, [[u{n}, v{n}]], [i, j]), h)'
asked('diffusion', A, P('q', ''), P('o', '2'), [('list(q.generate_path(np.array([x0]))[0])', 'q.generate_path(np.array([x2]))'), ('list(q.generate_path(np.array([x0]))[0])', 'q.generate_path(np.array([x2]), False)')], 'DiffusionProcess.generate_path', pre=['a < c', 'c < b'], opaque=RAW, me='q', guard=False)
changed('diffusion', A, P('q', '') + '\nq.generate_path(np.array([x0]))', ['q(e)[0]', 'list(q.path[0])'], 'q.generate_path(np.array([x2]))', P('q', '') + '\nq.generate_path(np.array([x2]))', 'DiffusionProcess.__call__', pre=['a < c', 'c < b', 'a <= e', 'e < b'], opaque=RAW, tag='another path')
A = 'a: datetime, b: datetime, h: timedelta, n: int, m: num, s: num, x0: num, k: int, m2: num, s2: num, x2: num'
asked('geometric motion', A, 'q = GeometricBrownianMotion(m, s, a, b, dt=h)', 'o = GeometricBrownianMotion(m2, s2, a, b, dt=h)', [('list(q.generate_path(x0, seed=n)[0])', 'q.generate_path(x2, seed=k)'), ('list(q.generate_path(x0, seed=n)[0])', 'q.generate_path(x2, False, seed=n)')],
      'GeometricBrownianMotion.generate_path', pre=PRE[:3], opaque=RAW, me='q', guard=False)
# curves fitted to instruments
A = 'a: date, pa: seq:obj:Payment, va: num, wa: num, b: date, pb: seq:obj:Payment, vb: num, wb: num, r: date, d: date, t: date, va2: num, vb2: num, wa2: num'
QS = '[Quote(KnotValuePair(a, {w}), pa, {v}), Quote(KnotValuePair(b, wb), pb, {u})]'
for fn in ('construct_yield_curve', 'bootstrap_yield_curve'):
    for method, other in (('LINEAR', 'CUBIC_SPLINE'), ('CUBIC_SPLINE', 'LINEAR')):
        ask = lambda f, v, u, w, m, r: f'{f}.{fn}({QS.format(v=v, u=u, w=w)}, InterpolationMethod.{m}, {r})'
        for was in (('va2', 'vb2', 'wa2', method, 'r'), ('va', 'vb', 'wa', other, 'r'), ('va', 'vb', 'wa', method, 't')):
            again(f'{fn} {method} after another of {", ".join(was)}', A, ask('f', *was), f'shown({ask("f", "va", "vb", "wa", method, "r")}, d)', f'YieldCurveFactory.{fn}', build='f = YieldCurveFactory()', pre=['a < b', 'b > r', 'b > t'], control=False)
# portfolios of least variance
A = 'm0: num, m1: num, v00: num, v01: num, v11: num, w00: num, w01: num, w11: num, r: num, q: num, g: num, h: num, h2: num'
asked('optimiser', A, 'c = opt([m0, m1], [v00, v01, v11])', 'o = opt([m1, m0], [w00, w01, w11])', [('row(c.find_minimum_variance_portfolio(r), 2)', 'row(c.find_minimum_variance_portfolio(q), 2)'), ('row(c.find_minimum_variance_portfolio(r), 2)', 'c.find_minimum_variance_portfolio(r, True)'),
      ('row(c.find_minimum_variance_portfolio(r, True), 2)', 'c.find_minimum_variance_portfolio(r)'), ('row(c.find_maximum_utility_portfolio(g, h), 2)', 'row(c.find_maximum_utility_portfolio(g, h2), 2)'),
      ('row(c.find_maximum_utility_portfolio(g, h, True), 2)', 'row(c.find_maximum_utility_portfolio(g, h), 2)'), ('row(c.mean_vector, 2)', '')], 'PortfolioOptimizer', opaque=(), guard=False)
# defaults
again('default times after others', 'h: fn:num, g: fn:num, k: int', 'default_bernoulli_paths(g, 1.5, 0.5, 1)', 'list(default_bernoulli_paths(h, 1.5, 0.5, 1))', 'default_bernoulli_paths', change='np.random.seed(k)', opaque=(), control=False)
# two-factor models
A = 'a: datetime, b: datetime, h: timedelta, kr: pos, sr: pos, L: num, kl: pos, sl: pos, rho: num, l: num, r: num, kr2: pos, sr2: pos, L2: num, kl2: pos, sl2: pos, rho2: num, l2: num, r2: num, w: datetime'
TWO = lambda m, n: f'{m} = DoublyMeanRevertingVasicek(kr{n}, sr{n}, L{n}, kl{n}, sl{n}, rho{n}, a, b, h)'
DO = DCC + ('ShortRateModel.generate_path', 'DiffusionProcess.generate_path', 'Scheduler.generate_dates_by_increments')
Q = [('(m.long_term_mean, m.short_rate_volatility, m.short_rate_reversion_speed, m.long_term_volatility, m.long_term_reversion_speed)', ''), ('{k: list(v) for k, v in m.parameter_calibration_dict.items()}', '')]
asked('two-factor short rate', A, TWO('m', ''), TWO('n', '2'), Q, 'DoublyMeanRevertingVasicek', pre=['a < b', 'rho < 1', 'rho > -1', 'rho2 < 1', 'rho2 > -1'], opaque=DO, me='m', var='n', guard=False)
