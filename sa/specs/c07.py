from ob import Spec

S = Spec('C07', '''
from datetime import date, datetime, timedelta
from fixedIncome.src.assets.base_cashflow import Cashflow, Payment, CashflowKeys, ZeroCoupon
from fixedIncome.src.curves.base_curve import DiscountCurve
''', '''
def pv(ps, curve):
    t = 0
    for p in ps:
        if p.payment is not None and p.payment_date >= curve.reference_date:
            t += curve(p.payment_date) * p.payment
    return t

class Stub(DiscountCurve):
    def __init__(self, ref, f):
        self.reference_date = ref
        self.f = f
    def __call__(self, date_obj, adjustment=None):
        return self.f(date_obj)
''')
OP = ('Curve.interpolate',)
A = 'ps: seq:obj:Payment, curve: obj:DiscountCurve'
S.eq('present value of a cashflow', A, 'Cashflow(ps).present_value(curve)', 'pv(ps, curve)', opaque=OP, at='Cashflow.present_value', wrong='pv(ps[1:], curve)')
S.eq('present value asked of the curve', 'ps: seq:obj:Payment, r: date, f: fn:num', 'Stub(r, f).present_value(Cashflow(ps))', 'pv(ps, Stub(r, f))', opaque=OP, at='DiscountCurve.present_value', wrong='pv(ps, Stub(r, f)) + 1')
S.eq('a payment on the valuation date counts in full', 'x: num, curve: obj:DiscountCurve', 'Cashflow([Payment(curve.reference_date, x)]).present_value(curve)',
     'curve(curve.reference_date) * x', opaque=OP, at='Cashflow.present_value')
S.eq('a payment the day before the valuation date counts nothing', 'x: num, curve: obj:DiscountCurve',
     'Cashflow([Payment(curve.reference_date - timedelta(1), x)]).present_value(curve)', '0', opaque=OP, at='Cashflow.present_value')
S.eq('a payment not yet known counts nothing', 'd: date, x: num, curve: obj:DiscountCurve', 'Cashflow([Payment(d, None), Payment(curve.reference_date, x)]).present_value(curve)',
     'curve(curve.reference_date) * x', opaque=OP, at='Cashflow.present_value')
S.eq('present value of a zero coupon bond', 'd: date, p: num, curve: obj:DiscountCurve', 'ZeroCoupon(d, p).present_value(curve)', 'curve(d)', pre=['d >= curve.reference_date'], opaque=OP,
     at='ZeroCoupon.present_value')
S.eq('present value is additive', 'ps: seq:obj:Payment, qs: seq:obj:Payment, curve: obj:DiscountCurve', 'Cashflow(ps + qs).present_value(curve)',
     'Cashflow(ps).present_value(curve) + Cashflow(qs).present_value(curve)', opaque=OP, at='Cashflow.present_value')
S.eq('present value is linear in the amounts', 'd: date, x: num, k: num, curve: obj:DiscountCurve', 'Cashflow([Payment(d, k * x)]).present_value(curve)',
     'k * Cashflow([Payment(d, x)]).present_value(curve)', opaque=OP, at='Cashflow.present_value')
