from ob import Spec
from c15 import IMPORTS as I15, HELP as H15, OP

IMPORTS = I15 + '''
import numpy as np
import pandas as pd
from datetime import timedelta
from fixedIncome.src.assets.base_cashflow import Cashflow, Payment
from fixedIncome.src.curves.curve_enumerations import InterpolationSpace
from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurve, YieldCurveFactory
'''
HELP = H15 + '''
class Quote:
    """an instrument known by its curve knot, its payments and its market price"""
    def __init__(self, knot, payments=None, price=None, maturity=None):
        self.knot = knot
        self.payments = payments
        self.price = price
        self.maturity_date = knot.knot if maturity is None else maturity
    def to_knot_value_pair(self):
        return self.knot
    def present_value(self, curve):
        return sum(curve(p.payment_date) * p.payment for p in self.payments)

def yields(ks, ref, space=InterpolationSpace.CONTINUOUSLY_COMPOUNDED_YIELD, method=InterpolationMethod.LINEAR, dcc=DayCountConvention.ACTUAL_OVER_ACTUAL,
           left=EndBehavior.CONSTANT, right=EndBehavior.CONSTANT, quotes=None):
    return YieldCurve(instruments=[Quote(k) for k in ks], quote_adjustments=quotes, interpolation_method=method, interpolation_day_count_convention=dcc, interpolation_space=space,
                      reference_date=ref, left_end_behavior=left, right_end_behavior=right)

def bumped(ks, ref, f, d, dcc, kind):
    """discount factor of a curve of discount factors, each knot bumped"""
    new = [KnotValuePair(k.knot, value(ks, ref, k.knot, dcc, kind, True, True) + f(k.knot)) for k in sorted(ks, key=lambda p: p.knot)]
    return value(new, ref, d, dcc, kind)

def discounted(ks, ref, f, d, dcc, kind):
    """discount factor from continuously compounded yields known for every day from the reference date to the last knot"""
    end = sorted(ks, key=lambda p: p.knot)[-1].knot
    days = [ref + timedelta(i) for i in range((end - ref).days + 1)]
    new = [KnotValuePair(t, np.exp(-(value(ks, ref, t, dcc, kind, True, True) + f(t)) * axis(ref, t, dcc))) for t in days]
    return value(new, ref, d, dcc, 'linear')
'''
S = Spec('C17', IMPORTS, HELP)
A = 'ks: seq:obj:KnotValuePair, r: date, d: date'
PRE = ['len(ks) > 0', 'sorted(ks, key=lambda p: p.knot)[-1].knot > r']
KINDS = (('PREVIOUS', 'previous'), ('LINEAR', 'linear'), ('QUADRATIC_SPLINE', 'quadratic'), ('CUBIC_SPLINE', 'cubic'))
for m, kind in KINDS:
    S.eq(f'yield {m}', A, f'yields(ks, r, method=InterpolationMethod.{m})(d)', f'value(ks, r, d, DayCountConvention.ACTUAL_OVER_ACTUAL, {kind!r}, True, True)', pre=PRE, opaque=OP, at='YieldCurve.__init__')
    for space, ref in (('DISCOUNT_FACTOR', 'bumped'), ('CONTINUOUSLY_COMPOUNDED_YIELD', 'discounted')):
        S.eq(f'discount curve from {space} {m}', A, f'yields(ks, r, InterpolationSpace.{space}, InterpolationMethod.{m}).to_discount_curve()(d)',
             f'{ref}(ks, r, lambda t: 0, d, DayCountConvention.ACTUAL_OVER_ACTUAL, {kind!r})', pre=PRE, opaque=OP, at='YieldCurve.to_discount_curve')
        S.eq(f'bumped discount curve from {space} {m}', A + ', f: fn:num', f'yields(ks, r, InterpolationSpace.{space}, InterpolationMethod.{m}).to_discount_curve(f)(d)',
             f'{ref}(ks, r, f, d, DayCountConvention.ACTUAL_OVER_ACTUAL, {kind!r})', pre=PRE, opaque=OP, at='YieldCurve.to_discount_curve',
             wrong=f'{ref}(ks, r, lambda t: 0, d, DayCountConvention.ACTUAL_OVER_ACTUAL, {kind!r})')
for space, ref in (('DISCOUNT_FACTOR', 'bumped'), ('CONTINUOUSLY_COMPOUNDED_YIELD', 'discounted')):
    SP = f'InterpolationSpace.{space}'
    for dcc in ('ACTUAL_OVER_360', 'THIRTY_OVER_THREESIXTY'):
        S.eq(f'discount curve from {space} under {dcc}', A, f'yields(ks, r, {SP}, dcc=DayCountConvention.{dcc}).to_discount_curve()(d)', f'{ref}(ks, r, lambda t: 0, d, DayCountConvention.{dcc}, "linear")',
             pre=PRE, opaque=OP, at='YieldCurve.to_discount_curve')
    S.eq(f'converting {space} again does not disturb the first discount curve', A + ', f: fn:num, g: fn:num', f'y = yields(ks, r, {SP})\na = y.to_discount_curve(f)\nb = y.to_discount_curve(g)\nc = y.to_discount_curve()\nreturn (a(d), b(d), c(d))',
         f'dcc = DayCountConvention.ACTUAL_OVER_ACTUAL\nreturn ({ref}(ks, r, f, d, dcc, "linear"), {ref}(ks, r, g, d, dcc, "linear"), {ref}(ks, r, lambda t: 0, d, dcc, "linear"))', pre=PRE, opaque=OP, at='YieldCurve.to_discount_curve')
    S.eq(f'converting {space} leaves the yields as they were', A + ', f: fn:num', f'y = yields(ks, r, {SP})\ny.to_discount_curve(f)\nreturn (y(d), y.interpolation_values, y.reference_date)',
         f'y = yields(ks, r, {SP})\nreturn (y(d), sorted(ks, key=lambda p: p.knot), r)', pre=PRE, opaque=OP, at='YieldCurve.to_discount_curve')
    S.eq(f'{space} discount curve after the yields changed', A + ', ls: seq:obj:KnotValuePair', f'y = yields(ks, r, {SP})\ny.to_discount_curve()\ny.reset_interpolation_values(ls)\nreturn y.to_discount_curve()(d)',
         f'{ref}(ls, r, lambda t: 0, d, DayCountConvention.ACTUAL_OVER_ACTUAL, "linear")', pre=PRE + ['len(ls) > 0', 'sorted(ls, key=lambda p: p.knot)[-1].knot > r'], opaque=OP, at='YieldCurve.to_discount_curve')
    S.eq(f'{space} discount curve after one yield changed', A + ', k: obj:KnotValuePair', f'y = yields(ks, r, {SP})\ny.to_discount_curve()\ny.reset_interpolation_value(k, 0)\nreturn y.to_discount_curve()(d)',
         f'z = sorted(ks, key=lambda p: p.knot)\nz[0] = k\nreturn {ref}(z, r, lambda t: 0, d, DayCountConvention.ACTUAL_OVER_ACTUAL, "linear")', pre=PRE + ['k.knot > r'], opaque=OP, at='YieldCurve.to_discount_curve')
    S.eq(f'{space} present value', A + ', ps: seq:obj:Payment, f: fn:num', f'y = yields(ks, r, {SP})\nq = Quote(KnotValuePair(d, 0), ps)\nreturn y.present_value(q, f)',
         f'sum({ref}(ks, r, f, p.payment_date, DayCountConvention.ACTUAL_OVER_ACTUAL, "linear") * p.payment for p in ps)', pre=PRE, opaque=OP, at='YieldCurve.present_value')
    S.eq(f'{space} present value without adjustment', A + ', ps: seq:obj:Payment, f: fn:num', f'y = yields(ks, r, {SP})\nq = Quote(KnotValuePair(d, 0), ps)\ny.present_value(q, f)\nreturn y.present_value(q)',
         f'sum({ref}(ks, r, lambda t: 0, p.payment_date, DayCountConvention.ACTUAL_OVER_ACTUAL, "linear") * p.payment for p in ps)', pre=PRE, opaque=OP, at='YieldCurve.present_value')
    S.eq(f'{space} discount curve settings', A, f'c = yields(ks, r, {SP}, method=InterpolationMethod.CUBIC_SPLINE).to_discount_curve()\nreturn (c.reference_date, c.index, c.left_end_behavior, c.right_end_behavior, c.interpolation_day_count_convention)',
         '(r, CurveIndex.US_TREASURY, EndBehavior.ERROR, EndBehavior.ERROR, DayCountConvention.ACTUAL_OVER_ACTUAL)', pre=PRE, opaque=OP, at='YieldCurve.to_discount_curve')
for space in ('FORWARD_RATES', 'YIELD', 'YIELD_TO_MATURITY'):
    S.eq(f'converting {space} is refused', A, f'try:\n    yields(ks, r, InterpolationSpace.{space}).to_discount_curve()\nexcept Exception:\n    return "refused"', '"refused"', pre=PRE, opaque=OP, at='YieldCurve.to_discount_curve')
S.eq('quote adjustments shift the quotes', A + ', u: num, v: num, a: obj:KnotValuePair, b: obj:KnotValuePair', 'y = yields([a, b], r, quotes=[u, v])\nreturn (y(d), y.interpolation_values)',
     'z = [KnotValuePair(a.knot, a.value + u), KnotValuePair(b.knot, b.value + v)]\nreturn (value(z, r, d, DayCountConvention.ACTUAL_OVER_ACTUAL, "linear", True, True), sorted(z, key=lambda p: p.knot))', opaque=OP, at='YieldCurve.__init__')
S.eq('any quote adjustments shift the quotes', A + ', us: seq:num', 'yields(ks, r, quotes=us).interpolation_values', 'sorted([KnotValuePair(k.knot, k.value + u) for k, u in zip(ks, us)], key=lambda p: p.knot)',
     pre=PRE + ['len(us) == len(ks)'], opaque=OP, at='YieldCurve.__init__')
S.eq('a yield curve without quote adjustments', A, 'yields(ks, r).interpolation_values', 'sorted(ks, key=lambda p: p.knot)', pre=PRE, opaque=OP, at='YieldCurve.__init__')
S.eq('end behaviour of the yields', A, 'yields(ks, r, left=EndBehavior.ERROR, right=EndBehavior.CONSTANT)(d)', 'value(ks, r, d, DayCountConvention.ACTUAL_OVER_ACTUAL, "linear", None, True)', pre=PRE, opaque=OP, at='YieldCurve.__init__')
S.eq('curve from yields to maturity', A, 'c = YieldCurveFactory().construct_curve_from_yield_to_maturities([Quote(k) for k in ks], InterpolationMethod.LINEAR, r)\nreturn (c(d), c.interpolation_space)',
     '(value(ks, r, d, DayCountConvention.ACTUAL_OVER_ACTUAL, "linear", True, True), InterpolationSpace.YIELD_TO_MATURITY)', pre=PRE, opaque=OP, at='YieldCurveFactory.construct_curve_from_yield_to_maturities')
