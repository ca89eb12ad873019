from ob import Spec
from c15 import IMPORTS, HELP, OP

S = Spec('C16', IMPORTS, HELP + '''
def observe(c, d, f):
    return (c.interpolation_values, c.reference_date, c(d, f), c.interpolate(d), c.date_to_interpolation_axis(d), c.left_end_behavior, c.right_end_behavior, c.interpolation_method)

def replaced(ks, i, k):
    out = sorted(ks, key=lambda p: p.knot)
    out[i] = k
    return out
''')
A = 'ks: seq:obj:KnotValuePair, ls: seq:obj:KnotValuePair, r: date, d: date, f: fn:num'
PRE = ['len(ks) > 0', 'len(ls) > 0']
for cls, mk in (('Curve', 'curve'), ('DiscountCurve', 'discount')):
    for ends in ('', ', left=EndBehavior.CONSTANT, right=EndBehavior.CONSTANT'):
        tag = ' held ends' if ends else ''
        S.eq(f'{cls} after its knots are replaced{tag}', A, f'c = {mk}(ks, r{ends})\nc.reset_interpolation_values(ls)\nreturn observe(c, d, f)', f'observe({mk}(ls, r{ends}), d, f)', pre=PRE,
             opaque=OP, at='Curve.reset_interpolation_values', wrong=f'observe({mk}(ks, r{ends}), d, f)')
        S.eq(f'{cls} after one knot is replaced{tag}', A + ', i: int, k: obj:KnotValuePair', f'c = {mk}(ks, r{ends})\nc.reset_interpolation_value(k, i)\nreturn observe(c, d, f)',
             f'observe({mk}(replaced(ks, i, k), r{ends}), d, f)', pre=PRE + ['i >= 0', 'i < len(ks)'], opaque=OP, at='Curve.reset_interpolation_value', wrong=f'observe({mk}(ks, r{ends}), d, f)')
        S.eq(f'{cls} after its only knot is moved{tag}', A.replace('ks: seq:obj:KnotValuePair, ', '') + ', j: obj:KnotValuePair, k: obj:KnotValuePair',
             f'c = {mk}([j], r{ends})\nc.reset_interpolation_value(k, 0)\nreturn observe(c, d, f)', f'observe({mk}([k], r{ends}), d, f)', opaque=OP, at='Curve.reset_interpolation_value')
        S.eq(f'{cls} a replaced knot may change the order{tag}', 'a: date, b: date, e: date, u: num, v: num, w: num, r: date, d: date, f: fn:num',
             f'c = {mk}([KnotValuePair(a, u), KnotValuePair(b, v)], r{ends})\nc.reset_interpolation_value(KnotValuePair(e, w), 0)\nreturn observe(c, d, f)',
             f'observe({mk}([KnotValuePair(b, v), KnotValuePair(e, w)], r{ends}), d, f)', pre=['a < b', 'b < e'], opaque=OP, at='Curve.reset_interpolation_value')
    S.eq(f'{cls} replaced twice', A, f'c = {mk}(ks, r)\nc.reset_interpolation_values(ls)\nc.reset_interpolation_values(ks)\nreturn observe(c, d, f)', f'observe({mk}(ks, r), d, f)', pre=PRE, opaque=OP,
         at='Curve.reset_interpolation_values')
    S.eq(f'{cls} without a reference date keeps the one it started with', A, f'c = {mk}(ks, None)\nc.reset_interpolation_values(ls)\nreturn observe(c, d, f)',
         f'observe({mk}(ls, sorted(ks, key=lambda p: p.knot)[0].knot), d, f)', pre=PRE, opaque=OP, at='Curve.reset_interpolation_values')
    S.eq(f'{cls} a knot replaced after all were', A + ', k: obj:KnotValuePair', f'c = {mk}(ks, r)\nc.reset_interpolation_values(ls)\nc.reset_interpolation_value(k, 0)\nreturn observe(c, d, f)',
         f'observe({mk}(replaced(ls, 0, k), r), d, f)', pre=PRE, opaque=OP, at='Curve.reset_interpolation_value')
    S.eq(f'{cls} leaves the given knots as they were', A + ', j: obj:KnotValuePair, k: obj:KnotValuePair, l: obj:KnotValuePair', f'given = [j, k]\nother = [k, j]\nc = {mk}(given, r)\nc.reset_interpolation_value(l, 0)\nc.reset_interpolation_values(other)\nc.reset_interpolation_value(l, 1)\nreturn (given, other)',
         'return ([j, k], [k, j])', opaque=OP, at='Curve.__init__')
    S.eq(f'{cls} evaluating changes nothing', A, f'c = {mk}(ks, r, left=EndBehavior.CONSTANT, right=EndBehavior.CONSTANT)\nc(d, f)\nc.date_to_interpolation_axis(d)\nreturn observe(c, d, f)',
         f'c = {mk}(ks, r, left=EndBehavior.CONSTANT, right=EndBehavior.CONSTANT)\nreturn observe(c, d, f)', pre=PRE, opaque=OP, at='Curve.interpolate')
