from ob import Spec

IMPORTS = '''
import scipy
from datetime import date
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
from fixedIncome.src.curves.curve_enumerations import CurveIndex, EndBehavior, InterpolationMethod
from fixedIncome.src.curves.base_curve import Curve, DiscountCurve, KnotValuePair
'''
HELP = '''
def axis(ref, d, dcc):
    return DayCountCalculator.compute_accrual_length(ref, d, dcc)

def value(ks, ref, d, dcc=DayCountConvention.ACTUAL_OVER_360, kind='linear', left=None, right=None):
    ks = sorted(ks, key=lambda p: p.knot)
    first, last = ks[0], ks[-1]
    if ref is None:
        ref = first.knot
    f = scipy.interpolate.interp1d([axis(ref, p.knot, dcc) for p in ks], [p.value for p in ks], kind)
    if d < first.knot:
        if left is None:
            raise ValueError
        return first.value
    if d > last.knot:
        if right is None:
            raise ValueError
        return last.value
    return f(axis(ref, d, dcc))

def curve(ks, ref, dcc=DayCountConvention.ACTUAL_OVER_360, method=InterpolationMethod.LINEAR, left=EndBehavior.ERROR, right=EndBehavior.ERROR):
    return Curve(interpolation_values=ks, interpolation_method=method, interpolation_day_count_convention=dcc, reference_date=ref, left_end_behavior=left, right_end_behavior=right)

def discount(ks, ref, dcc=DayCountConvention.ACTUAL_OVER_360, method=InterpolationMethod.LINEAR, left=EndBehavior.ERROR, right=EndBehavior.ERROR):
    return DiscountCurve(interpolation_values=ks, interpolation_method=method, index=CurveIndex.SOFR, interpolation_day_count_convention=dcc, reference_date=ref,
                         left_end_behavior=left, right_end_behavior=right)
'''
OP = ('DayCountCalculator.compute_accrual_length',)
S = Spec('C15', IMPORTS, HELP)
A = 'ks: seq:obj:KnotValuePair, r: date, d: date'
PRE = ['len(ks) > 0']
KINDS = (('PREVIOUS', 'previous'), ('LINEAR', 'linear'), ('QUADRATIC_SPLINE', 'quadratic'), ('CUBIC_SPLINE', 'cubic'))
for cls, mk in (('Curve', 'curve'), ('DiscountCurve', 'discount')):
    for m, kind in KINDS:
        S.eq(f'{cls} value {m}', A, f'{mk}(ks, r, method=InterpolationMethod.{m})(d)', f'value(ks, r, d, kind={kind!r})', pre=PRE, opaque=OP, at='Curve.interpolate',
             wrong=f'value(ks, r, d, kind={"cubic" if kind == "linear" else "linear"!r})')
    for dcc in ('ACTUAL_OVER_365', 'ACTUAL_OVER_ACTUAL', 'THIRTY_OVER_THREESIXTY', 'ACTUAL_OVER_365_POINT_25'):
        S.eq(f'{cls} value {dcc}', A, f'{mk}(ks, r, dcc=DayCountConvention.{dcc})(d)', f'value(ks, r, d, dcc=DayCountConvention.{dcc})', pre=PRE, opaque=OP, at='Curve.date_to_interpolation_axis')
    for left in ('CONSTANT', 'ERROR'):
        for right in ('CONSTANT', 'ERROR'):
            S.eq(f'{cls} ends {left} {right}', A, f'{mk}(ks, r, left=EndBehavior.{left}, right=EndBehavior.{right})(d)',
                 f'value(ks, r, d, left={True if left == "CONSTANT" else None}, right={True if right == "CONSTANT" else None})', pre=PRE, opaque=OP, at='Curve.interpolate',
                 wrong=f'value(ks, r, d, left={None if left == "CONSTANT" else True}, right={True if right == "CONSTANT" else None})')
    S.eq(f'{cls} adjusted value', A + ', f: fn:num', f'{mk}(ks, r, left=EndBehavior.CONSTANT, right=EndBehavior.CONSTANT)(d, f)',
         'value(ks, r, d, left=True, right=True) + f(d)', pre=PRE, opaque=OP, at='Curve.interpolate', wrong='value(ks, r, d, left=True, right=True) + f(r)')
    S.eq(f'{cls} adjustment asked of interpolate', A + ', f: fn:num', f'{mk}(ks, r).interpolate(d, f)', 'value(ks, r, d) + f(d)', pre=PRE, opaque=OP, at='Curve.interpolate')
    S.eq(f'{cls} without a reference date starts at its first knot', 'ks: seq:obj:KnotValuePair, d: date', f'c = {mk}(ks, None)\nreturn (c.reference_date, c(d))',
         'return (sorted(ks, key=lambda p: p.knot)[0].knot, value(ks, None, d))', pre=PRE, opaque=OP, at='Curve.__init__')
    S.eq(f'{cls} unknown end behaviour is refused', A, f'{mk}(ks, r, left=None, right=None)(d)', 'value(ks, r, d)', pre=PRE, opaque=OP, at='Curve.interpolate')
    S.eq(f'{cls} axis', A, f'{mk}(ks, r, dcc=DayCountConvention.ACTUAL_OVER_365).date_to_interpolation_axis(d)', 'axis(r, d, DayCountConvention.ACTUAL_OVER_365)', pre=PRE, opaque=OP,
         at='Curve.date_to_interpolation_axis', wrong='axis(d, r, DayCountConvention.ACTUAL_OVER_365)')
    S.eq(f'{cls} knots', A, f'c = {mk}(ks, r)\nreturn (c.interpolation_values, c.reference_date)', '(sorted(ks, key=lambda p: p.knot), r)', pre=PRE, opaque=OP, at='Curve.__init__')
S.eq('index', A, '(curve(ks, r).index, discount(ks, r).index)', '(CurveIndex.NONE, CurveIndex.SOFR)', pre=PRE, opaque=OP, at='DiscountCurve.index')
S.eq('two explicit knots, linear, at the knots', 'a: date, b: date, u: num, v: num', 'c = curve([KnotValuePair(b, v), KnotValuePair(a, u)], a)\nreturn c.interpolation_values',
     '[KnotValuePair(a, u), KnotValuePair(b, v)]', pre=['a < b'], opaque=OP, at='Curve.__init__')
