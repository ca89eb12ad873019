from ob import Spec
from c17 import IMPORTS as I17, HELP as H17
from c22 import H19

S = Spec('C31', I17 + '''
from datetime import datetime
from dateutil.relativedelta import relativedelta
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.holidays import Holiday
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentFrequency, PaymentTime, BusinessDayAdjustment, SettlementConvention
from fixedIncome.src.assets.base_cashflow import CashflowKeys, CashflowCollection, ZeroCoupon
from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond, BondPayment
from fixedIncome.src.assets.credit.corporate_bond import FixedRateBond
from fixedIncome.src.assets.credit.loan import Loan, LoanPayment
from fixedIncome.src.assets.rates.linear_rates.interest_rate_swap import InterestRateSwapDirection, SwapAccrual, TermInterestRateSwap, OvernightIndexSwap
from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
from fixedIncome.src.risk.risk_metrics import Risk, RiskLadder
from fixedIncome.src.portfolio.base_portfolio import Portfolio, PortfolioEntry
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.base_processes import DiffusionProcess, DriftDiffusionPair
from fixedIncome.src.stochastics.geometric_brownian_motion import GeometricBrownianMotion
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import VasicekModel, MultivariateVasicekModel
''', H17 + H19 + '''
class Flat(DiscountCurve):
    """a discount curve known by its reference date and its values"""
    def __init__(self, ref, f):
        self.reference_date = ref
        self.f = f
    def __call__(self, date_obj, adjustment=None):
        return self.f(date_obj)

class SomeTreasury(UsTreasuryBond):
    def __init__(self, days, **kw):
        self.days = days
        super().__init__(**kw)
    def create_coupon_payments_cashflow(self):
        return Cashflow([BondPayment(payment_date=a, payment=self.coupon_payment, unadjusted_payment_date=u) for u, a in self.days])

class SomeCorporate(FixedRateBond):
    def __init__(self, days, **kw):
        self.days = days
        super().__init__(**kw)
    def create_coupon_payments_cashflow(self):
        return Cashflow([BondPayment(payment_date=a, payment=self.coupon_payment, unadjusted_payment_date=u) for u, a in self.days])

def bond(cls, days, price, c, principal, bought, matures, cal):
    return cls(days, price=price, coupon_rate=c, principal=principal, tenor='1Y', purchase_date=bought, maturity_date=matures, holiday_calendar=cal)

def bond_state(b):
    return ([(p.payment_date, p.payment, p.unadjusted_payment_date) for p in b[CashflowKeys.COUPON_PAYMENTS]], [(p.payment_date, p.payment) for p in b[CashflowKeys.SINGLE_PAYMENT]],
            len(b), b.price, b.coupon_rate, b.coupon_payment, b.principal, b.purchase_date, b.maturity_date, b.dated_date, b.settlement_convention,
            b.day_count_convention, b.payment_frequency, b.business_day_adjustment, b.accrued_interest, b.full_price)

class SomeTerm(TermInterestRateSwap):
    def __init__(self, fixed, floating, **kw):
        self.fixed, self.floating = fixed, floating
        super().__init__(**kw)
    def generate_fixed_leg_accrual_schedule(self):
        return self.fixed
    def generate_floating_leg_accrual_schedule(self):
        return self.floating

class SomeOis(OvernightIndexSwap):
    def __init__(self, fixed, floating, **kw):
        self.fixed, self.floating = fixed, floating
        super().__init__(**kw)
    def generate_fixed_leg_accrual_schedule(self):
        return self.fixed
    def generate_floating_leg_accrual_schedule(self):
        return self.floating

def swap(cls, fixed, floating, rate, notional, bought, cal, way=InterestRateSwapDirection.RECEIVER_FIXED):
    return cls(fixed, floating, float_index=CurveIndex.SOFR, direction=way, fixed_rate=rate, notional=notional, purchase_date=bought,
               settlement_convention=SettlementConvention.T_PLUS_TWO_BUSINESS, tenor='10Y',
               floating_leg_payment_frequency=PaymentFrequency.QUARTERLY, fixed_leg_payment_frequency=PaymentFrequency.SEMI_ANNUAL,
               floating_leg_day_count_convention=DayCountConvention.ACTUAL_OVER_360, fixed_leg_day_count_convention=DayCountConvention.THIRTY_OVER_THREESIXTY,
               holiday_calendar=cal, fixing_date_for_accrual_period=SettlementConvention.T_MINUS_TWO_BUSINESS, payment_delay=SettlementConvention.T_PLUS_ONE_BUSINESS,
               business_day_adjustment=BusinessDayAdjustment.MODIFIED_FOLLOWING)

def swap_state(s):
    return ([(p.payment_date, p.payment) for p in s[CashflowKeys.FIXED_LEG]], [(p.payment_date, p.payment) for p in s[CashflowKeys.FLOATING_LEG]], s.fixed_rate, s.direction, s.notional,
            s.purchase_date, s.start_accrual_date, s.end_accrual_date, s.tenor, s.float_index)

def curve_state(c, d, f):
    return (c.interpolation_values, c.reference_date, c(d, f), c.interpolate(d), c.date_to_interpolation_axis(d), c.left_end_behavior, c.right_end_behavior, c.interpolation_method)

def keyed(days):
    return [KeyRate(DayCountConvention.ACTUAL_OVER_ACTUAL, x) for x in days]

def key_state(k, x):
    return (k.key_rate_date, k.prior_date, k.next_date, k.bump_val, k.day_count_convention, k(x), k.adjustment_fxcn(x))

def col_state(c, x):
    return ([key_state(k, x) for k in c], c(x), len(c), bool(c))

class Shocks(BrownianMotion):
    """increments given in advance, over the two steps of a grid"""
    def __init__(self, a, c, b, dw, dt):
        super().__init__(a, b, len(dw))
        self.dw, self.dt, self.grid = dw, dt, [a, c, b]
    @property
    def datetimes(self):
        return self.grid
    @property
    def dt_increments(self):
        return np.array(self.dt)
    def generate_increments(self, dt, seed=None):
        return np.array(self.dw), np.array(self.dt)

class Both(CashflowCollection):
    def to_knot_value_pair(self):
        return None
    def present_value(self, curve):
        return 0

def vasicek(a, c, b, th, k, s, r, u, v):
    m = VasicekModel(th, k, s, Shocks(a, c, b, [[u, v]], [1.0, 1.0]))
    m.generate_path(r)
    return m

def one_factor(a, c, b, mu, g, th, k, s, x, u, v):
    m = MultivariateVasicekModel(mu, np.array([g]), np.array([th]), np.array([[k]]), np.array([[s]]), Shocks(a, c, b, [[u, v]], [1.0, 1.0]))
    m.generate_path(np.array([x]))
    return m

def grid_of(m):
    return [v for v in m.path[0]]

class Given:
    """an asset of given value"""
    def __init__(self, value):
        self.value = value
    def present_value(self, curve):
        return self.value

class Asset:
    """an asset known by its curve knot and by its value on a curve"""
    def __init__(self, knot, worth):
        self.knot = knot
        self.worth = worth
    def to_knot_value_pair(self):
        return self.knot
    def present_value(self, curve):
        return curve(self.knot.knot) * self.worth
''')
OP = ('Scheduler.add_business_days', 'Scheduler.is_business_day', 'Scheduler.following_date_adjustment', 'Scheduler.modified_following_date_adjustment',
      'Scheduler.calculate_settlement_date', 'DayCountCalculator.compute_accrual_length')


def untouched(name, args, build, state, questions, at, pre=(), opaque=OP, spoil=None):
    """asking each question leaves everything that can be seen as it was"""
    for i, (q, where) in enumerate(questions):
        S.eq(f'{name}: {q}', args, f'{build}\ntry:\n    {q}\nexcept Exception:\n    pass\nreturn {state}', f'{build}\nreturn {state}', pre=list(pre), opaque=opaque, at=f'{at}.{where}',
             wrong=f'{build}\n{spoil}\nreturn {state}' if spoil and i == 0 else None)
        if q != 'c[CashflowKeys.COUPON_PAYMENTS]':     # always refused
            S.eq(f'{name}: {q}, answered', args, f'{build}\n{q}\nreturn {state}', f'{build}\nseen = {state}\n{q}\nreturn seen', pre=list(pre), opaque=opaque, at=f'{at}.{where}')


# payments
ST = '([(x.payment_date, x.payment) for x in c], len(c), [(x.payment_date, x.payment) for x in ps])'
untouched('cashflow', 'ps: seq:obj:Payment, r: date, f: fn:num, i: int', 'c = Cashflow(ps)', ST,
          [(f'c.present_value(Flat(r, f))', 'present_value'), ('c.get_payment_dates().append(r)', 'get_payment_dates'), ('c.get_payment_amounts().append(1)', 'get_payment_amounts'),
           ('c[i]', '__getitem__'), ('c[1:3]', '__getitem__'), ('c[:2].add_payment(Payment(r, 1))', '__getitem__'), ('list(c).append(Payment(r, 1))', '__iter__')], 'Cashflow', spoil='c.add_payment(Payment(r, 1))')
untouched('zero coupon', 'd: date, p: num, r: date, f: fn:num', 'z = ZeroCoupon(d, p)', '(z.payment_date, z.price, [[(x.payment_date, x.payment) for x in z[k]] for k in (CashflowKeys.SINGLE_PAYMENT,)], len(z), z.to_knot_value_pair())',
          [('z.present_value(Flat(r, f))', 'present_value'), ('z.to_knot_value_pair()', 'to_knot_value_pair')], 'ZeroCoupon')
untouched('cashflow collection', 'ps: seq:obj:Payment, qs: seq:obj:Payment, r: date, f: fn:num', 'c = Both([Cashflow(ps), Cashflow(qs)], [CashflowKeys.FIXED_LEG, CashflowKeys.FLOATING_LEG])',
          '([(x.payment_date, x.payment) for x in c[CashflowKeys.FIXED_LEG]], [(x.payment_date, x.payment) for x in c[CashflowKeys.FLOATING_LEG]], len(c), CashflowKeys.FIXED_LEG in c, CashflowKeys.COUPON_PAYMENTS in c)',
          [('CashflowKeys.COUPON_PAYMENTS in c', '__contains__'), ('c[CashflowKeys.COUPON_PAYMENTS]', '__getitem__'), ('list(c)', '__iter__')], 'CashflowCollection',
          spoil='c[CashflowKeys.FIXED_LEG] = Cashflow(qs)')
# bonds
A = 'u0: date, a0: date, u1: date, a1: date, price: num, k: num, principal: num, bought: date, matures: date, cal: dict:str:obj:Holiday, r: date, day: date, f: fn:num, y: num'
for cls, real in (('SomeTreasury', 'UsTreasuryBond'), ('SomeCorporate', 'FixedRateBond')):
    B = f'b = bond({cls}, [(u0, a0), (u1, a1)], price, k, principal, bought, matures, cal)'
    Q = [('b.present_value(Flat(r, f))', 'present_value'), ('b.to_knot_value_pair()', 'to_knot_value_pair'), ('b.calculate_accrued_interest(day)', 'calculate_accrued_interest'),
         ('b.get_full_price(day)', 'get_full_price'), ('b.discount_cashflows_by_fixed_rate(y, day)', 'discount_cashflows_by_fixed_rate'), ('b.discount_cashflows_by_fixed_rate(y)', 'discount_cashflows_by_fixed_rate'),
         ('b.yield_to_maturity(day)', 'yield_to_maturity'), ('b.yield_to_maturity()', 'yield_to_maturity'), ('b.pv_deriv(y)', 'pv_deriv'), ('b.duration()', 'duration'), ('b.convexity()', 'convexity'), ('b.is_payment_received(b[CashflowKeys.COUPON_PAYMENTS][0], day)', 'is_payment_received'),
         ('b.calculate_dated_date()', 'calculate_dated_date'), ('b.calculate_coupon_payment()', 'calculate_coupon_payment'), ('b.create_coupon_payments_cashflow()', 'create_coupon_payments_cashflow'), ('b.create_principal_repayment_cashflow()', 'create_principal_repayment_cashflow'),
         ('b.create_date_adjustment_function()(day)', 'create_date_adjustment_function')]
    if real == 'FixedRateBond':
        Q = [(q.replace('duration()', 'duration') if q == 'b.duration()' else q.replace('convexity()', 'convexity'), w) for q, w in Q] + [('b.macaulay_duration(y, day)', 'macaulay_duration')]
    untouched(real, A, B, 'bond_state(b)', Q, real, pre=['u0 < u1', 'a0 < a1'], spoil='b[CashflowKeys.COUPON_PAYMENTS] = Cashflow([])')
# swaps
A = 'fixed: seq:obj:SwapAccrual, floating: seq:obj:SwapAccrual, rate: num, notional: num, bought: date, cal: dict:str:obj:Holiday, r: date, d: fn:num, fx: seq:obj:Payment, fl: seq:obj:Payment, h: fn:num, s: date, e: date'
for cls, real in (('SomeTerm', 'TermInterestRateSwap'), ('SomeOis', 'OvernightIndexSwap')):
    B = f'x = swap({cls}, fixed, floating, rate, notional, bought, cal)\nx[CashflowKeys.FIXED_LEG] = Cashflow(fx)\nx[CashflowKeys.FLOATING_LEG] = Cashflow(fl)'
    Q = [('x.present_value(Flat(r, d))', 'present_value'), ('x.implied_rate(Flat(r, d), h)', 'implied_rate'), ('x.to_knot_value_pair()', 'to_knot_value_pair'), ('x.generate_fixed_leg_cashflow(False)', 'generate_fixed_leg_cashflow'),
         ('x.generate_floating_leg_cashflow(h, False)', 'generate_floating_leg_cashflow'), ('x.calculate_start_end_accrual_dates()', 'calculate_start_end_accrual_dates')]
    if cls == 'SomeOis':
        Q.append(('x.calculate_annualized_rate(h, s, e)', 'calculate_annualized_rate'))
    untouched(real, A, B, 'swap_state(x)', Q, real, spoil='x.generate_fixed_leg_cashflow()')
    B1 = f'x = swap({cls}, [SwapAccrual(s, e, None, w)], [SwapAccrual(s, e, None, w)], rate, notional, bought, cal)\nx[CashflowKeys.FIXED_LEG] = Cashflow([Payment(s, v)])\nx[CashflowKeys.FLOATING_LEG] = Cashflow([Payment(s, u)])'
    Q1 = [(q, k) for q, k in Q if cls == 'SomeTerm' or 'h' not in q.split('(', 1)[1].split(', ')] + [('x.floating_leg.get_payment_amounts()', 'floating_leg')]
    untouched(f'{real} of one period', 'rate: num, notional: num, bought: date, cal: dict:str:obj:Holiday, s: date, e: date, w: num, u: num, v: num, r: date, d: fn:num, h: fn:num', B1, '([(p.payment_date, p.payment) for p in x.fixed_leg], [(p.payment_date, p.payment) for p in x.floating_leg])', Q1, real, spoil='x.generate_fixed_leg_cashflow()')
# loans
A = 'p: num, i: num, o: date, t: rd, r: date, f: fn:num, y: num, xs: seq:num'
for when in ('START_OF_MONTH', 'END_OF_MONTH'):
    untouched(f'loan {when}', A, f'l = Loan(principal=p, interest_rate=i, origination_date=o, term_length=t, day_count_convention=DayCountConvention.THIRTY_OVER_THREESIXTY, payment_frequency=PaymentFrequency.MONTHLY, payment_time=PaymentTime.{when})',
              '(l.principal, xs, l.calculate_fixed_payment_amount())',
              [('l.generate_payment_schedule(y)', 'generate_payment_schedule'), ('l.generate_payment_schedule(y, xs)', 'generate_payment_schedule'), ('l.calculate_fixed_payment_amount()', 'calculate_fixed_payment_amount')], 'Loan')
# curves
A = 'ks: seq:obj:KnotValuePair, r: date, d: date, e: date, f: fn:num, g: fn:num, ps: seq:obj:Payment'
PRE = ['len(ks) > 0', 'sorted(ks, key=lambda p: p.knot)[-1].knot > r']
HELD = 'left=EndBehavior.CONSTANT, right=EndBehavior.CONSTANT'
untouched('curve', A, f'c = curve(ks, r, {HELD})', 'curve_state(c, d, f)', [('c(e, g)', '__call__'), ('c.interpolate(e)', 'interpolate'), ('c.date_to_interpolation_axis(e)', 'date_to_interpolation_axis'), ('c.interpolation_values', 'interpolation_values')], 'Curve', pre=PRE[:1],
          spoil='c.reset_interpolation_value(KnotValuePair(e, 1), 0)')
untouched('discount curve', A, f'c = discount(ks, r, {HELD})', 'curve_state(c, d, f)', [('c.present_value(Cashflow(ps))', 'present_value'), ('c(e, g)', '__call__')], 'DiscountCurve', pre=PRE[:1])
for space in ('DISCOUNT_FACTOR', 'CONTINUOUSLY_COMPOUNDED_YIELD'):
    Y = f'c = yields(ks, r, InterpolationSpace.{space})\ncol = KeyRateCollection(keyed([a, b]))\none = KeyRate(DayCountConvention.ACTUAL_OVER_ACTUAL, a, None, b)\nz = Asset(KnotValuePair(e, 1), w)'
    untouched(f'yield curve of {space}', A + ', a: date, b: date, w: num', Y, '(curve_state(c, d, f), c.interpolation_space, key_state(one, d), col_state(col, d), z.knot, z.worth)',
              [('c.to_discount_curve()', 'to_discount_curve'), ('c.to_discount_curve(g)', 'to_discount_curve'), ('c.present_value(z)', 'present_value'), ('c.present_value(z, g)', 'present_value'),
               ('c.calculate_key_rate_deriv(z, one)', 'calculate_key_rate_deriv'),
               ('c.calculate_pv01_risk(z, one)', 'calculate_pv01_risk')] + ([('c.calculate_pv01_risk_ladder(z, col)', 'calculate_pv01_risk_ladder')] if space != 'DISCOUNT_FACTOR' else []), 'YieldCurve', pre=PRE + ['a < b'])
    untouched(f'yield curve of {space} with an asset of given value', A + ', a: date, b: date, w: num', Y.replace('Asset(KnotValuePair(e, 1), w)', 'Given(w)'), '(curve_state(c, d, f), c.interpolation_space, key_state(one, d), col_state(col, d), z.value)',
              [('c.calculate_pv01_risk_ladder(z, col)', 'calculate_pv01_risk_ladder')], 'YieldCurve', pre=PRE + ['a < b'])
# key rates
A = 'a: date, b: date, e: date, x: date, y: date, p: date, n: date, u: num'
untouched('key rate', A, 'k = KeyRate(DayCountConvention.ACTUAL_OVER_ACTUAL, a, p, n)\nj = KeyRate(DayCountConvention.ACTUAL_OVER_ACTUAL, b)\nj.set_bump_val(u)', '(key_state(k, x), key_state(j, x))',
          [('k(y)', '__call__'), ('k == j', '__eq__'), ('sorted([j, k])', '__lt__'), ('list(k)', '__iter__'), ('k.create_adjustment_function()', 'create_adjustment_function'),
           ('[k, j].index(j)', '__eq__')], 'KeyRate', pre=['p < a', 'a < n'], spoil='k.set_bump_val(u)')
untouched('key rate collection', A, 'c = KeyRateCollection(keyed([a, b]))\nj = KeyRate(DayCountConvention.ACTUAL_OVER_ACTUAL, e)', '(col_state(c, x), key_state(j, x))',
          [('c(y)', '__call__'), ('c + KeyRateCollection([j])', '__add__'), ('list(c)', '__iter__'), ('j in c', '__contains__'), ('c[0]', '__getitem__'), ('c[0:1]', '__getitem__'), ('c[5]', '__getitem__'), ('len(c)', '__len__'), ('list(reversed(c))', '__getitem__'),
           ('c.index(c[1])', '__getitem__'), ('bool(c)', '__len__'), ('c.key_rates', 'key_rates'), ('next(c)', '__next__')], 'KeyRateCollection', pre=['a < b', 'b < e'], spoil='c.set_bump_val(u)')
# portfolios
A = 'n: num, m: num, a: obj:KnotValuePair, b: obj:KnotValuePair, f: fn:num, cash: num'
untouched('portfolio', A, 'q = Portfolio([PortfolioEntry(n, Asset(a, n)), PortfolioEntry(m, Asset(b, m))], cash)', '([(x.quantity, x.asset.knot, x.asset.worth) for x in q], q.present_value(f))',
          [('q.present_value(f)', 'present_value'), ('q.to_key_rate_collection(DayCountConvention.ACTUAL_OVER_ACTUAL)', 'to_key_rate_collection'), ('list(q)', '__iter__')], 'Portfolio', pre=['a.knot < b.knot'])

# models
A = 'a: datetime, c: datetime, b: datetime, th: num, k: pos, s: pos, r: num, u: num, v: num, x: datetime, p: datetime, w: datetime, z: datetime'
PRE = ['a < c', 'c < b', 'a <= x', 'x < b', 'a <= p', 'p < w', 'w <= b', 'p < z', 'z <= b']
Q = ['m(x)', 'm.short_rate_variance(w)', 'm.expected_short_rate(w)', 'm.zero_coupon_bond_price(w)', 'm.zero_coupon_bond_price(w, p)', 'm.yield_convexity(w)', 'm.yield_volatility(w)', 'm.yield_volatility(w, p)',
     'm.instantaneous_forward_rate(w)', 'm.instantaneous_forward_rate(w, p)', 'm.average_expected_short_rate(w)', 'm.instantaneous_forward_rate_volatility(w)', 'm.generate_path(u, False)']
untouched('one-factor short rate', A, 'm = vasicek(a, c, b, th, k, s, r, u, v)', '(grid_of(m), m(x), m.long_term_mean, m.reversion_speed, m.volatility, m.zero_coupon_bond_price(z, p), m.start_date_time, m.end_date_time)',
          [(q, q[2:].split('(')[0] if q != 'm(x)' else '__call__') for q in Q] + [('m.zero_coupon_bond_yield(w, p)', 'zero_coupon_bond_yield'), ('m.zero_coupon_yield(w, p)', 'zero_coupon_yield'), ('list(m.price_convexities([w], p))', 'price_convexities')],
          'VasicekModel', pre=PRE, opaque=('DayCountCalculator.compute_accrual_length',), spoil='m.generate_path(u)')
A = 'a: datetime, c: datetime, b: datetime, mu: num, g: num, th: num, k: pos, s: pos, y: num, u: num, v: num, x: datetime, p: datetime, w: datetime, z: datetime'
Q = ['m(x)', 'm.expected_state_variable_mean(w)', 'm.expected_short_rate(w)', 'm.state_variable_covariance(w)', 'm.short_rate_variance(w)', 'm.zero_coupon_bond_price(w)', 'm.zero_coupon_bond_price(w, p)', 'm.yield_convexity(w)',
     'm.yield_volatility(w)', 'm.instantaneous_forward_rate(w)', 'm.instantaneous_forward_rate(w, p)', 'm.average_expected_short_rate(w)', 'm.instantaneous_forward_rate_volatility(w)', 'm.zero_coupon_bond_yield(w)',
     'm.zero_coupon_bond_price_deriv_wrt_state_variables(w)', 'm.zero_coupon_price_deriv_wrt_maturity(w)', 'm.generate_path(np.array([u]), False)']
untouched('state-variable short rate', A, 'm = one_factor(a, c, b, mu, g, th, k, s, y, u, v)', '(m(a), m(c), m(b), m(x), m.zero_coupon_bond_price(z, p), m.start_date_time, m.end_date_time)',
          [(q, q[2:].split('(')[0] if q != 'm(x)' else '__call__') for q in Q], 'MultivariateVasicekModel', pre=PRE, opaque=('DayCountCalculator.compute_accrual_length',), spoil='m.generate_path(np.array([u]))')

# what an object was made from, and other objects
PAY = 'ps: seq:obj:Payment, qs: seq:obj:Payment, r: date, v: num'
SHOW = '[(x.payment_date, x.payment) for x in c], len(c)'
for form, src in (('list', 'list(ps)'), ('tuple', 'tuple(ps)'), ('iterator', '(x for x in ps)')):
    S.eq(f'cashflow made from a {form}', PAY, f'c = Cashflow({src})\nn = len(c)\nfor x in c:\n    pass\nreturn ({SHOW}, n)', f'c = sorted(ps, key=lambda x: x.payment_date)\nreturn ({SHOW}, len(c))', at='Cashflow.__init__')
S.eq('cashflow and the list it was made from', PAY, f'xs = list(ps)\nc = Cashflow(xs)\nd = Cashflow(xs)\nxs.append(Payment(r, v))\nd.add_payment(Payment(r, v))\nreturn ({SHOW}, [(x.payment_date, x.payment) for x in xs])',
     f'c = sorted(ps, key=lambda x: x.payment_date)\nreturn ({SHOW}, [(x.payment_date, x.payment) for x in ps + [Payment(r, v)]])', at='Cashflow.__init__', wrong=f'c = sorted(ps + [Payment(r, v)], key=lambda x: x.payment_date)\nreturn ({SHOW}, [(x.payment_date, x.payment) for x in ps + [Payment(r, v)]])')
for form, a, b in (('lists', 'ds', 'vs'), ('iterators', '(d for d in ds)', '(v for v in vs)'), ('an iterator and a list', '(d for d in ds)', 'vs'), ('a list and an iterator', 'ds', '(v for v in vs)')):
    S.eq(f'cashflow from dates and amounts in {form}', 'ds: seq:date, vs: seq:num', f'c = Cashflow.create_from_date_and_float_iterables({a}, {b})\nreturn ({SHOW})', f'if len(ds) != len(vs):\n    raise ValueError\nc = Cashflow([Payment(d, v) for d, v in zip(ds, vs)])\nreturn ({SHOW})',
         at='Cashflow.create_from_date_and_float_iterables')
BOTH = 'CashflowKeys.FIXED_LEG, CashflowKeys.FLOATING_LEG'
SEE = '[(x.payment_date, x.payment) for x in c[CashflowKeys.FIXED_LEG]], [(x.payment_date, x.payment) for x in c[CashflowKeys.FLOATING_LEG]], len(c), CashflowKeys.COUPON_PAYMENTS in c'
for form, a, b in (('lists', '[Cashflow(ps), Cashflow(qs)]', f'[{BOTH}]'), ('iterators', '(Cashflow(x) for x in [ps, qs])', f'(x for x in [{BOTH}])')):
    S.eq(f'collection made from {form}', PAY, f'c = Both({a}, {b})\nn = len(c)\nfor x in c:\n    pass\nreturn ({SEE}, n)', f'c = Both((Cashflow(ps), Cashflow(qs)), ({BOTH}))\nreturn ({SEE}, 2)', at='CashflowCollection.__init__')
    S.eq(f'collections made from {form}, one of them changed', PAY, f'c = Both({a}, {b})\nd = Both({a}, {b})\nd[CashflowKeys.COUPON_PAYMENTS] = Cashflow([])\nd[CashflowKeys.FIXED_LEG] = Cashflow([Payment(r, v)])\nreturn ({SEE})', f'c = Both((Cashflow(ps), Cashflow(qs)), ({BOTH}))\nreturn ({SEE})',
         at='CashflowCollection.__setitem__', wrong=f'c = Both((Cashflow(qs), Cashflow(ps)), ({BOTH}))\nreturn ({SEE})')
S.eq('collection and the lists it was made from', PAY, f'xs = [Cashflow(ps), Cashflow(qs)]\nks = [{BOTH}]\nc = Both(xs, ks)\nc[CashflowKeys.COUPON_PAYMENTS] = Cashflow([])\nc[CashflowKeys.FIXED_LEG] = Cashflow([])\nd = Both(xs, ks)\nxs.append(None)\nks[0] = None\nd[CashflowKeys.SINGLE_PAYMENT] = Cashflow([])\nreturn (len(xs), len(ks), len(xs[0]), len(d), CashflowKeys.FIXED_LEG in d)',
     'return (3, 2, len(ps), 3, True)', at='CashflowCollection.__init__')
S.eq('risk ladder and the list it was made from', 'd: date, v: num', 'xs = [Risk(d, v, CurveIndex.SOFR)]\nl = RiskLadder(xs)\nxs.append(Risk(d, v, CurveIndex.SOFR))\nn = len(l)\nfor x in l:\n    pass\nreturn (n, [(x.key_rate_date, x.pv01) for x in l], RiskLadder(x for x in xs) is l, len(RiskLadder(x for x in xs)))',
     'return (1, [(d, v)], False, 2)', at='RiskLadder.__init__')
S.eq('portfolio and the list it was made from', 'n: num, a: obj:KnotValuePair, v: num, f: fn:num', 'xs = [PortfolioEntry(n, Asset(a, v))]\np = Portfolio(xs)\nq = Portfolio(xs)\nxs.append(PortfolioEntry(n, Asset(a, v)))\nq.to_key_rate_collection(DayCountConvention.ACTUAL_OVER_ACTUAL)\nreturn (len(list(p)), len(list(q)), len(xs), p.present_value(f))',
     'return (1, 1, 2, n * v * f(a.knot))', at='Portfolio.__init__')
two = 'u0: date, a0: date, u1: date, a1: date, price: num, k: num, principal: num, bought: date, matures: date, cal: dict:str:obj:Holiday, r: date, day: date, f: fn:num, y: num'
for cls, real in (('SomeTreasury', 'UsTreasuryBond'), ('SomeCorporate', 'FixedRateBond')):
    S.eq(f'{real} beside a changed one', two, f'b = bond({cls}, [(u0, a0), (u1, a1)], price, k, principal, bought, matures, cal)\nc = bond({cls}, [(u0, a0), (u1, a1)], y, k, principal, bought, matures, cal)\nc[CashflowKeys.COUPON_PAYMENTS] = Cashflow([])\nc[CashflowKeys.SINGLE_PAYMENT] = Cashflow([Payment(r, y)])\nc[CashflowKeys.FIXED_LEG] = Cashflow([])\nreturn bond_state(b)',
         f'return bond_state(bond({cls}, [(u0, a0), (u1, a1)], price, k, principal, bought, matures, cal))', pre=['u0 < u1', 'a0 < a1'], opaque=OP, at=f'{real}.__init__')
G = 'fixed: seq:obj:SwapAccrual, floating: seq:obj:SwapAccrual, rate: num, other: num, notional: num, bought: date, cal: dict:str:obj:Holiday, h: fn:num'
for cls, real, change in (('SomeTerm', 'TermInterestRateSwap', 'y.generate_floating_leg_cashflow(h)'), ('SomeOis', 'OvernightIndexSwap', 'y[CashflowKeys.FLOATING_LEG] = Cashflow([])')):
    S.eq(f'{real} beside a changed one', G, f'x = swap({cls}, fixed, floating, rate, notional, bought, cal)\ny = swap({cls}, fixed, floating, other, notional, bought, cal)\ny.generate_fixed_leg_cashflow()\n{change}\nreturn (x.fixed_leg, x.floating_leg, x.fixed_rate, y.fixed_rate)',
         'return (None, None, rate, other)', opaque=OP, at=f'{real}.__init__')
S.eq('curve beside a changed one', 'ks: seq:obj:KnotValuePair, ls: seq:obj:KnotValuePair, r: date, d: date, e: date, f: fn:num', f'c = curve(ks, r, {HELD})\no = curve(ks, r, {HELD})\no.reset_interpolation_value(KnotValuePair(e, 1), 0)\no.reset_interpolation_values(ls)\nreturn curve_state(c, d, f)',
     f'return curve_state(curve(ks, r, {HELD}), d, f)', pre=['len(ks) > 0', 'len(ls) > 0'], opaque=OP, at='Curve.__init__')
S.eq('short rate beside another', 'a: datetime, c: datetime, b: datetime, th: num, k: pos, s: pos, r: num, u: num, v: num, th2: num, k2: pos, s2: pos, r2: num', 'm = vasicek(a, c, b, th, k, s, r, u, v)\nn = vasicek(a, c, b, th2, k2, s2, r2, v, u)\nn.generate_path(u)\nreturn (m(a), m(c), m(b), m.long_term_mean, m.reversion_speed, m.volatility)',
     'm = vasicek(a, c, b, th, k, s, r, u, v)\nreturn (m(a), m(c), m(b), th, k, s)', pre=['a < c', 'c < b'], opaque=('DayCountCalculator.compute_accrual_length',), at='VasicekModel.__init__')
