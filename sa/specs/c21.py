from ob import Spec
from c17 import IMPORTS as I17, HELP as H17, OP
from c19 import HELP as H19

S = Spec('C21', I17 + '''
from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
from fixedIncome.src.risk.risk_metrics import Risk, RiskLadder
''', H17 + H19 + '''
D = DayCountConvention.ACTUAL_OVER_ACTUAL

def pv(space, ks, r, ps, f):
    conv = bumped if space == InterpolationSpace.DISCOUNT_FACTOR else discounted
    return sum(conv(ks, r, f, p.payment_date, D, 'linear') * p.payment for p in ps)

def slope(space, ks, r, ps, prior, mid, following):
    up = pv(space, ks, r, ps, lambda t: tent(t, prior, mid, following, D, 0.00005))
    down = pv(space, ks, r, ps, lambda t: tent(t, prior, mid, following, D, -0.00005))
    return (up - down) / 0.0001

def state(k):
    return (k.key_rate_date, k.prior_date, k.next_date, k.bump_val, k.day_count_convention)
''')
A = 'ks: seq:obj:KnotValuePair, r: date, d: date, ps: seq:obj:Payment, m: date'
PRE = ['len(ks) > 0', 'sorted(ks, key=lambda p: p.knot)[-1].knot > r']
for space in ('DISCOUNT_FACTOR', 'CONTINUOUSLY_COMPOUNDED_YIELD'):
    SP = f'InterpolationSpace.{space}'
    MK = f'y = yields(ks, r, {SP})\nq = Quote(KnotValuePair(d, 0), ps)\n'
    for tag, pre, args, prior, nxt in (('only', [], '', 'None', 'None'), ('first', ['m < n'], ', n: date', 'None', 'n'), ('last', ['p < m'], ', p: date', 'p', 'None'),
                                       ('middle', ['p < m', 'm < n'], ', p: date, n: date', 'p', 'n')):
        K = f'k = KeyRate(D, m, {prior}, {nxt})\n'
        S.eq(f'{space} derivative in the {tag} key rate', A + args, f'{MK}{K}return y.calculate_key_rate_deriv(q, k)', f'slope({SP}, ks, r, ps, {prior}, m, {nxt})', pre=PRE + pre, opaque=OP,
             at='YieldCurve.calculate_key_rate_deriv', wrong=None if space == 'DISCOUNT_FACTOR' else f'2 * slope({SP}, ks, r, ps, {prior}, m, {nxt})')
        S.eq(f'{space} derivative leaves the {tag} key rate as it was', A + args + ', u: num, x: date', f'{MK}{K}k.set_bump_val(u)\ny.calculate_key_rate_deriv(q, k)\nreturn (state(k), k(x))', f'slope({SP}, ks, r, ps, {prior}, m, {nxt})\nreturn ((m, {prior}, {nxt}, u, D), tent(x, {prior}, m, {nxt}, D, u))', pre=PRE + pre, opaque=OP,
             at='YieldCurve.calculate_key_rate_deriv')
        S.eq(f'{space} derivative does not depend on the bump of the {tag} key rate', A + args + ', u: num', f'{MK}{K}k.set_bump_val(u)\nreturn y.calculate_key_rate_deriv(q, k)', f'slope({SP}, ks, r, ps, {prior}, m, {nxt})', pre=PRE + pre, opaque=OP,
             at='YieldCurve.calculate_key_rate_deriv')
    K = 'k = KeyRate(D, m, p, n)\n'
    B = A + ', p: date, n: date'
    O = PRE + ['p < m', 'm < n']
    S.eq(f'{space} derivative leaves the yields and their discount curve as they were', B, f'{MK}{K}a = y.to_discount_curve()\ny.calculate_key_rate_deriv(q, k)\nreturn (y(d), y.interpolation_values, a(d), y.to_discount_curve()(d), y.present_value(q))',
         f'y = yields(ks, r, {SP})\nf = lambda t: 0\nconv = {"bumped" if space == "DISCOUNT_FACTOR" else "discounted"}\nv = conv(ks, r, f, d, D, "linear")\nreturn (y(d), y.interpolation_values, v, v, pv({SP}, ks, r, ps, f))', pre=O, opaque=OP, at='YieldCurve.calculate_key_rate_deriv')
    S.eq(f'{space} risk', B, f'{MK}{K}x = y.calculate_pv01_risk(q, k)\nreturn (x.key_rate_date, x.pv01, x.index)', f'return (m, slope({SP}, ks, r, ps, p, m, n) * 0.0001, CurveIndex.US_TREASURY)', pre=O, opaque=OP, at='YieldCurve.calculate_pv01_risk')
    S.eq(f'{space} risk does not depend on the bump of the key rate', B + ', u: num', f'{MK}{K}k.set_bump_val(u)\nx = y.calculate_pv01_risk(q, k)\nreturn (x.key_rate_date, x.pv01, x.index)', f'return (m, slope({SP}, ks, r, ps, p, m, n) * 0.0001, CurveIndex.US_TREASURY)', pre=O, opaque=OP, at='YieldCurve.calculate_pv01_risk')
    for n in (1, 2) if space == 'DISCOUNT_FACTOR' else (1, 2, 3):
        tier = 'thorough' if space == 'DISCOUNT_FACTOR' and n > 1 else 'quick'
        v = 'abc'[:n]
        around = ['None'] + list(v) + ['None']
        C = A.replace(', m: date', '') + ''.join(f', {c}: date' for c in v)
        order = [f'{s} < {t}' for s, t in zip(v, v[1:])]
        col = 'col = KeyRateCollection([' + ', '.join(f'KeyRate(D, {c})' for c in v) + '])\n'
        want = '[' + ', '.join(f'(CurveIndex.US_TREASURY, {v[i]}, slope({SP}, ks, r, ps, {around[i]}, {v[i]}, {around[i + 2]}) * 0.0001)' for i in range(n)) + ']'
        S.eq(f'{space} risk ladder of {n}', C, f'{MK}{col}return [(x.index, x.key_rate_date, x.pv01) for x in y.calculate_pv01_risk_ladder(q, col)]', want, pre=PRE + order, opaque=OP, at='YieldCurve.calculate_pv01_risk_ladder', tier=tier)
        S.eq(f'{space} risk ladder of {n} leaves the key rates as they were', C + ', x: date, u: num', f'{MK}{col}col.set_bump_val(u)\ny.calculate_pv01_risk_ladder(q, col)\nreturn ([state(k) for k in col], col(x))',
             f'around = [None] + [{", ".join(v)}] + [None]\nfor i in range(1, {n + 1}):\n    slope({SP}, ks, r, ps, around[i - 1], around[i], around[i + 1])\nreturn ([(around[i], around[i - 1], around[i + 1], u, D) for i in range(1, {n + 1})], sum(tent(x, around[i - 1], around[i], around[i + 1], D, u) for i in range(1, {n + 1})))', pre=PRE + order, opaque=OP,
             at='YieldCurve.calculate_pv01_risk_ladder', tier=tier)
    S.eq(f'{space} derivative of a whole collection', A.replace(', m: date', '') + ', a: date, b: date', f'{MK}col = KeyRateCollection([KeyRate(D, a), KeyRate(D, b)])\nreturn y.present_value(q, col)',
         f'pv({SP}, ks, r, ps, lambda t: tent(t, None, a, b, D) + tent(t, a, b, None, D))', pre=PRE + ['a < b'], opaque=OP, at='YieldCurve.present_value')
for space in ('FORWARD_RATES', 'YIELD', 'YIELD_TO_MATURITY'):
    S.eq(f'risk on {space} is refused', A, f'y = yields(ks, r, InterpolationSpace.{space})\ntry:\n    y.calculate_key_rate_deriv(Quote(KnotValuePair(d, 0), ps), KeyRate(D, m))\nexcept Exception:\n    return "refused"', '"refused"', pre=PRE + ['len(ps) > 0'], opaque=OP,
         at='YieldCurve.calculate_key_rate_deriv')
