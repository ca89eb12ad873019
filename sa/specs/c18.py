from ob import Spec
from c17 import IMPORTS, HELP, OP

S = Spec('C18', IMPORTS + 'import scipy\n', HELP + '''
def shown(y, d):
    return (y(d), y.interpolation_values, y.interpolation_space, y.reference_date, y.interpolation_method)

def mispricing(qs, knots, r, m):
    y = yields(knots, r, method=m)
    return np.array([y.present_value(q) - q.price for q in qs])

def knots_at(qs, xs):
    return [KnotValuePair(q.to_knot_value_pair().knot, x) for q, x in zip(qs, xs)]

def together(qs, r, m):
    """all knots solved at once"""
    xs = scipy.optimize.root(lambda xs: mispricing(qs, knots_at(qs, xs), r, m), x0=np.zeros(len(qs))).x
    return yields(knots_at(qs, xs), r, method=m)

def in_turn(qs, r, m):
    """each knot solved with the earlier ones at their solutions"""
    qs = sorted(qs, key=lambda q: q.to_knot_value_pair().knot)
    knots = [q.to_knot_value_pair() for q in qs]
    for i in range(len(qs)):
        t = qs[i].to_knot_value_pair().knot
        x = scipy.optimize.root(lambda x: mispricing([qs[i]], knots[:i] + [KnotValuePair(t, float(x))] + knots[i + 1:], r, m)[0], x0=np.array([0.0])).x
        knots[i] = KnotValuePair(t, float(x))
    return yields(knots, r, method=m)
''')


def quotes(n, late=False):
    names = 'abc'[:n]
    args = ', '.join(f'{c}: date, p{c}: seq:obj:Payment, v{c}: num, w{c}: num' for c in names) + ', r: date, d: date'
    mk = '[' + ', '.join(f'Quote(KnotValuePair({c}, w{c}), p{c}, v{c})' for c in names) + ']'
    return args, mk


FACTORY = 'YieldCurveFactory'
for n in (1, 2, 3):
    args, mk = quotes(n)
    names = 'abc'[:n]
    order = [f'{x} < {y}' for x, y in zip(names, names[1:])]
    for m in ('LINEAR', 'CUBIC_SPLINE') if n < 3 else ('LINEAR',):
        M = f'InterpolationMethod.{m}'
        S.eq(f'calibration of {n} instruments at once, {m}', args, f'shown(YieldCurveFactory().construct_yield_curve({mk}, {M}, r), d)', f'shown(together({mk}, r, {M}), d)',
             pre=[f'{names[-1]} > r'] + order, opaque=OP, at='YieldCurveFactory.construct_yield_curve')
        S.eq(f'bootstrap of {n} instruments, {m}', args, f'shown(YieldCurveFactory().bootstrap_yield_curve({mk}, {M}, r), d)', f'shown(in_turn({mk}, r, {M}), d)',
             pre=[f'{names[-1]} > r'] + order, opaque=OP, at='YieldCurveFactory.bootstrap_yield_curve')
args, mk = quotes(2)
for what, fn, ref in (('calibration at once', 'construct_yield_curve', 'together'), ('bootstrap', 'bootstrap_yield_curve', 'in_turn')):
    M = 'InterpolationMethod.LINEAR'
    S.eq(f'{what} of instruments given out of order', args, f'shown(YieldCurveFactory().{fn}({mk}, {M}, r), d)', f'shown({ref}({mk}, r, {M}), d)', pre=['a > b', 'a > r'],
         opaque=OP, at=f'YieldCurveFactory.{fn}')
    S.eq(f'{what} of instruments given once', args, f'shown(YieldCurveFactory().{fn}((q for q in {mk}), {M}, r), d)', f'shown({ref}({mk}, r, {M}), d)', pre=['a < b', 'b > r'], opaque=OP,
         at=f'YieldCurveFactory.{fn}')
    S.eq(f'{what} leaves the list of instruments as it was', args, f'qs = {mk}\nYieldCurveFactory().{fn}(qs, {M}, r)\nreturn [q.knot for q in qs]', f'{ref}({mk}, r, {M})\nreturn [KnotValuePair(a, wa), KnotValuePair(b, wb)]', pre=['a > b', 'a > r'],
         opaque=OP, at=f'YieldCurveFactory.{fn}')
    S.eq(f'{what} gives a curve of continuously compounded yields', args, f'y = YieldCurveFactory().{fn}({mk}, {M}, r)\nc = y.to_discount_curve()\nreturn (c(d), y.left_end_behavior, y.right_end_behavior)',
         f'y = {ref}({mk}, r, {M})\nc = y.to_discount_curve()\nreturn (c(d), EndBehavior.CONSTANT, EndBehavior.CONSTANT)', pre=['a < b', 'b > r'], opaque=OP, at=f'YieldCurveFactory.{fn}')

# the knot of an instrument (the last date it depends on) need not follow its maturity
for what, fn, ref in (('calibration at once', 'construct_yield_curve', 'together'), ('bootstrap', 'bootstrap_yield_curve', 'in_turn')):
    mk = '[Quote(KnotValuePair(a, wa), [Payment(a, 1.0)], va, f), Quote(KnotValuePair(b, wb), [Payment(b, 1.0)], vb, e)]'
    S.eq(f'{what} of instruments whose knots are in the opposite order of their maturities', args + ', e: date, f: date', f'YieldCurveFactory().{fn}({mk}, {M}, r).interpolation_values', f'{ref}({mk}, r, {M}).interpolation_values',
         pre=['a < b', 'a > r', 'e < f'], opaque=OP, at=f'YieldCurveFactory.{fn}')
