from ob import Spec

S = Spec('C06', '''
from datetime import date, datetime, timedelta
import pandas as pd
from fixedIncome.src.assets.base_cashflow import Cashflow, Payment, CashflowCollection, CashflowKeys, ZeroCoupon
from fixedIncome.src.curves.base_curve import KnotValuePair
''', '''
def bydate(ps):
    return sorted(ps, key=lambda p: p.payment_date)

class Holding(CashflowCollection):
    def to_knot_value_pair(self):
        return None
    def present_value(self, discount_curve):
        return None

def two(a, b):
    return Holding([a, b], [CashflowKeys.FIXED_LEG, CashflowKeys.FLOATING_LEG])
''')
A = 'ps: seq:obj:Payment'
S.eq('schedule is the payments in date order', A, 'Cashflow(ps).schedule', 'bydate(ps)', at='Cashflow.__init__', wrong='list(ps)')
S.eq('payments from an iterator', A, 'Cashflow(p for p in ps).schedule', 'bydate(ps)', at='Cashflow.__init__')
S.eq('iteration', A, '[p for p in Cashflow(ps)]', 'bydate(ps)', at='Cashflow.__iter__')
S.eq('length', A, 'len(Cashflow(ps))', 'len(ps)', at='Cashflow.__len__', wrong='len(ps) + 1')
S.eq('payment amounts', A, 'Cashflow(ps).get_payment_amounts()', '[p.payment for p in bydate(ps)]', at='Cashflow.get_payment_amounts')
S.eq('payment dates', A, 'Cashflow(ps).get_payment_dates()', '[p.payment_date for p in bydate(ps)]', at='Cashflow.get_payment_dates', wrong='[p.payment for p in bydate(ps)]')
S.eq('indexing', A + ', i: int', 'Cashflow(ps)[i]', 'bydate(ps)[i]', pre=['i >= 0', 'i < len(ps)'], at='Cashflow.__getitem__')
S.eq('last payment', A, 'Cashflow(ps)[-1]', 'bydate(ps)[-1]', pre=['len(ps) > 0'], at='Cashflow.__getitem__')
S.eq('slicing', A, 'Cashflow(ps)[1:].schedule', 'bydate(bydate(ps)[1:])', at='Cashflow.__getitem__')
S.eq('adding a payment keeps every payment', A + ', q: obj:Payment', '''
c = Cashflow(ps)
c.add_payment(q)
return len(c)
''', 'len(ps) + 1', at='Cashflow.add_payment', wrong='len(ps)')
S.eq('adding a payment keeps date order', A + ', q: obj:Payment', '''
c = Cashflow(ps)
c.add_payment(q)
return c.schedule
''', 'bydate(bydate(ps) + [q])', at='Cashflow.add_payment', wrong='bydate(ps) + [q]')
S.eq('built from dates and amounts', 'ds: seq:date, xs: seq:num', 'Cashflow.create_from_date_and_float_iterables(ds, xs).schedule',
     'bydate([Payment(d, x) for d, x in zip(ds, xs)])', pre=['len(ds) == len(xs)'], at='Cashflow.create_from_date_and_float_iterables')
S.eq('dates and amounts of different length are rejected', 'ds: seq:date, xs: seq:num', 'Cashflow.create_from_date_and_float_iterables(ds, xs)',
     'raise Exception', pre=['len(ds) != len(xs)'], at='Cashflow.create_from_date_and_float_iterables')
B = 'a: obj:Cashflow, b: obj:Cashflow'
S.eq('collection looks cashflows up by key', B, '(two(a, b)[CashflowKeys.FIXED_LEG], two(a, b)[CashflowKeys.FLOATING_LEG])', '(a, b)', at='CashflowCollection.__getitem__',
     wrong='(b, a)')
S.eq('collection membership', B, '(CashflowKeys.FIXED_LEG in two(a, b), CashflowKeys.PREMIUM_LEG in two(a, b))', '(True, False)', at='CashflowCollection.__contains__')
S.eq('collection length', B, 'len(two(a, b))', '2', at='CashflowCollection.__len__')
S.eq('collection iteration', B, '[(k, v) for k, v in two(a, b)]', '[(CashflowKeys.FIXED_LEG, a), (CashflowKeys.FLOATING_LEG, b)]', at='CashflowCollection.__iter__')
S.eq('collection can be stepped through', B, 'next(iter(two(a, b)))', '(CashflowKeys.FIXED_LEG, a)', at='CashflowCollection.__iter__')
S.eq('replacing a cashflow', B + ', c: obj:Cashflow', '''
h = two(a, b)
h[CashflowKeys.FLOATING_LEG] = c
return (h[CashflowKeys.FLOATING_LEG], h[CashflowKeys.FIXED_LEG], len(h), h.keys, h.cashflow_list, [v for k, v in h])
''', '(c, a, 2, [CashflowKeys.FIXED_LEG, CashflowKeys.FLOATING_LEG], [a, c], [a, c])', at='CashflowCollection.__setitem__')
S.eq('adding a cashflow', B + ', c: obj:Cashflow', '''
h = two(a, b)
h[CashflowKeys.PREMIUM_LEG] = c
return (h[CashflowKeys.FLOATING_LEG], h[CashflowKeys.PREMIUM_LEG], len(h), h.keys, h.cashflow_list, [v for k, v in h])
''', '(b, c, 3, [CashflowKeys.FIXED_LEG, CashflowKeys.FLOATING_LEG, CashflowKeys.PREMIUM_LEG], [a, b, c], [a, b, c])', at='CashflowCollection.__setitem__')
S.eq('a missing cashflow is rejected', B, 'two(a, b)[CashflowKeys.PREMIUM_LEG]', 'raise Exception', at='CashflowCollection.__getitem__')
S.eq('zero coupon bond pays one unit on its date', 'd: date, p: num', '''
z = ZeroCoupon(d, p)
return ([(q.payment_date, q.payment) for q in z[CashflowKeys.SINGLE_PAYMENT]], len(z), z.price, z.payment_date)
''', '([(d, 1)], 1, p, d)', at='ZeroCoupon.__init__', wrong='([(d, p)], 1, p, d)')
S.eq('zero coupon bond curve knot', 'd: date, p: num', 'ZeroCoupon(d, p).to_knot_value_pair()', 'KnotValuePair(d, p)', at='ZeroCoupon.to_knot_value_pair')
S.eq('a series of the payments', A, 'Cashflow(ps).to_series()', 'pd.Series([p.payment for p in bydate(ps)], index=[p.payment_date for p in bydate(ps)])', at='Cashflow.to_series', wrong='pd.Series([p.payment for p in ps], index=[p.payment_date for p in ps])')
S.eq('a table of the payments', A, 'Cashflow(ps).to_dataframe()', 'pd.DataFrame({"Payment Dates": [p.payment_date for p in bydate(ps)], "Payments": [p.payment for p in bydate(ps)]})', at='Cashflow.to_dataframe',
     wrong='pd.DataFrame({"Payment Dates": [p.payment_date for p in ps], "Payments": [p.payment for p in ps]})')
for at, key in enumerate(['COUPON_PAYMENTS', 'MARK_TO_MARKET', 'SINGLE_PAYMENT']):
    S.eq(f'replacing cashflow {at} of three', B + ', c: obj:Cashflow, d: obj:Cashflow', f'''
h = Holding([a, b, c], [CashflowKeys.COUPON_PAYMENTS, CashflowKeys.MARK_TO_MARKET, CashflowKeys.SINGLE_PAYMENT])
h[CashflowKeys.{key}] = d
return (h.keys, h.cashflow_list, [x for x in h], h[CashflowKeys.COUPON_PAYMENTS], h[CashflowKeys.MARK_TO_MARKET], h[CashflowKeys.SINGLE_PAYMENT], len(h))
''', f'''
k = [CashflowKeys.COUPON_PAYMENTS, CashflowKeys.MARK_TO_MARKET, CashflowKeys.SINGLE_PAYMENT]
v = [a, b, c]
v[{at}] = d
return (k, v, [x for x in zip(k, v)], v[0], v[1], v[2], 3)
''', at='CashflowCollection.__setitem__')
S.eq('two cashflows added one after the other', B + ', c: obj:Cashflow, d: obj:Cashflow', '''
h = two(a, b)
h[CashflowKeys.PREMIUM_LEG] = c
h[CashflowKeys.SINGLE_PAYMENT] = d
h[CashflowKeys.PREMIUM_LEG] = a
return (h.keys, h.cashflow_list, [v for k, v in h], CashflowKeys.PREMIUM_LEG in h, CashflowKeys.SINGLE_PAYMENT in h, len(h))
''', '([CashflowKeys.FIXED_LEG, CashflowKeys.FLOATING_LEG, CashflowKeys.PREMIUM_LEG, CashflowKeys.SINGLE_PAYMENT], [a, b, a, d], [a, b, a, d], True, True, 4)', at='CashflowCollection.__setitem__')
S.eq('the caller keeps its own list', 'p: obj:Payment, q: obj:Payment, r: obj:Payment', '''
given = [p, q]
c = Cashflow(given)
c.add_payment(r)
return given
''', '[p, q]', at='Cashflow.__init__')
S.eq('later changes of the list given do not reach the cashflow', 'p: obj:Payment, q: obj:Payment, r: obj:Payment', '''
given = [p, q]
c = Cashflow(given)
given.append(r)
return c.schedule
''', 'bydate([p, q])', at='Cashflow.__init__')
S.eq('the caller keeps its own lists of cashflows and keys', B + ', c: obj:Cashflow', '''
flows, keys = [a, b], [CashflowKeys.FIXED_LEG, CashflowKeys.FLOATING_LEG]
h = Holding(flows, keys)
h[CashflowKeys.PREMIUM_LEG] = c
h[CashflowKeys.FIXED_LEG] = c
return (flows, keys)
''', '([a, b], [CashflowKeys.FIXED_LEG, CashflowKeys.FLOATING_LEG])', at='CashflowCollection.__init__')
S.eq('a payment added to a sliced cashflow leaves the original', A + ', q: obj:Payment', '''
c = Cashflow(ps)
d = c[:1]
d.add_payment(q)
return c.schedule
''', 'bydate(ps)', at='Cashflow.__getitem__')
