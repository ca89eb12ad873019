from ob import Spec

IMPORTS = '''
import operator
from datetime import date, timedelta
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
'''
HELP = '''
def accrual(a, b, dcc):
    return DayCountCalculator.compute_accrual_length(a, b, dcc)

def tent(d, prior, mid, following, dcc, bump=0.0001):
    """the bump at the key rate date, linear in accrued time down to 0 at the neighbouring dates, constant where there is no neighbour"""
    if prior is not None and d <= prior:
        return 0
    if following is not None and d >= following:
        return 0
    if d <= mid:
        return bump if prior is None else bump * accrual(prior, d, dcc) / accrual(prior, mid, dcc)
    return bump if following is None else bump * accrual(d, following, dcc) / accrual(mid, following, dcc)
'''
OP = ('DayCountCalculator.compute_accrual_length',)
S = Spec('C19', IMPORTS, HELP)
for tag, pre, args, prior, nxt in (('only', ['d <= d'], '', 'None', 'None'), ('first', ['m < n'], ', n: date', 'None', 'n'), ('last', ['p < m'], ', p: date', 'p', 'None'),
                                   ('middle', ['p < m', 'm < n'], ', p: date, n: date', 'p', 'n')):
    A = 'd: date, m: date' + args
    for dcc in ('ACTUAL_OVER_ACTUAL', 'ACTUAL_OVER_360', 'ACTUAL_OVER_365', 'THIRTY_OVER_THREESIXTY', 'ACTUAL_OVER_365_POINT_25'):
        D = f'DayCountConvention.{dcc}'
        S.eq(f'{tag} key rate {dcc}', A, f'KeyRate({D}, m, {prior}, {nxt})(d)', f'tent(d, {prior}, m, {nxt}, {D})', pre=pre, opaque=OP, at='KeyRate.create_adjustment_function',
             wrong=f'tent(d, {prior}, m, {nxt}, {D}, 0.0002)')
    D = 'DayCountConvention.ACTUAL_OVER_ACTUAL'
    S.eq(f'{tag} key rate with another bump', A + ', b: num', f'k = KeyRate({D}, m, {prior}, {nxt})\nk.set_bump_val(b)\nreturn (k(d), k.adjustment_fxcn(d), k.bump_val)', f't = tent(d, {prior}, m, {nxt}, {D}, b)\nreturn (t, t, b)',
         pre=pre, opaque=OP, at='KeyRate.set_bump_val')
    S.eq(f'{tag} key rate from one with other neighbours', A + ', q: date, s: date, b: num', f'k = KeyRate({D}, m, q, s)\nk.set_bump_val(b)\nk.set_prior_date({prior})\nk.set_next_date({nxt})\nreturn (k(d), k.prior_date, k.next_date, k.key_rate_date, k.bump_val)',
         f'return (tent(d, {prior}, m, {nxt}, {D}, b), {prior}, {nxt}, m, b)', pre=pre + ['q < m', 's > m'], opaque=OP, at='KeyRate.set_prior_date')
    S.eq(f'{tag} key rate whose bump is changed does not affect another', A + ', b: num', f'j = KeyRate({D}, m, {prior}, {nxt})\nk = KeyRate({D}, m, {prior}, {nxt})\nj.set_bump_val(b)\nreturn (k(d), KeyRate({D}, m, {prior}, {nxt})(d))',
         f't = tent(d, {prior}, m, {nxt}, {D})\nreturn (t, t)', pre=pre, opaque=OP, at='KeyRate.set_bump_val')
    S.eq(f'{tag} key rate from one with another prior date', A + ', q: date', f'k = KeyRate({D}, m, q, {nxt})\nk.set_prior_date({prior})\nreturn (k(d), k.prior_date, k.next_date)', f'return (tent(d, {prior}, m, {nxt}, {D}), {prior}, {nxt})',
         pre=pre + ['q < m'], opaque=OP, at='KeyRate.set_prior_date')
    S.eq(f'{tag} key rate from one without prior date', A, f'k = KeyRate({D}, m, None, {nxt})\nk.set_prior_date({prior})\nreturn (k(d), k.prior_date, k.next_date)', f'return (tent(d, {prior}, m, {nxt}, {D}), {prior}, {nxt})',
         pre=pre, opaque=OP, at='KeyRate.set_prior_date')
    S.eq(f'{tag} key rate from one with another next date', A + ', q: date', f'k = KeyRate({D}, m, {prior}, q)\nk.set_next_date({nxt})\nreturn (k(d), k.prior_date, k.next_date)', f'return (tent(d, {prior}, m, {nxt}, {D}), {prior}, {nxt})',
         pre=pre + ['m < q'], opaque=OP, at='KeyRate.set_next_date')
    S.eq(f'{tag} key rate from one without next date', A, f'k = KeyRate({D}, m, {prior}, None)\nk.set_next_date({nxt})\nreturn (k(d), k.prior_date, k.next_date)', f'return (tent(d, {prior}, m, {nxt}, {D}), {prior}, {nxt})',
         pre=pre, opaque=OP, at='KeyRate.set_next_date')
    S.eq(f'{tag} key rate at its date', A, f'KeyRate(DayCountConvention.ACTUAL_OVER_360, m, {prior}, {nxt})(m)', '0.0001', pre=pre, at='KeyRate.create_adjustment_function')
K = 'KeyRate(DayCountConvention.ACTUAL_OVER_ACTUAL, m, p, n)'
A = 'd: date, m: date, p: date, n: date'
O = ['p < m', 'm < n']
S.eq('a prior date not before the key rate date is refused', A + ', q: date', f'k = {K}\ntry:\n    k.set_prior_date(q)\nexcept ValueError:\n    return ("refused", k(d), k.prior_date)\nreturn ("taken",)', f'return ("refused", tent(d, p, m, n, DayCountConvention.ACTUAL_OVER_ACTUAL), p)',
     pre=O + ['q >= m'], opaque=OP, at='KeyRate.set_prior_date')
S.eq('a next date not after the key rate date is refused', A + ', q: date', f'k = {K}\ntry:\n    k.set_next_date(q)\nexcept ValueError:\n    return ("refused", k(d), k.next_date)\nreturn ("taken",)', f'return ("refused", tent(d, p, m, n, DayCountConvention.ACTUAL_OVER_ACTUAL), n)',
     pre=O + ['q <= m'], opaque=OP, at='KeyRate.set_next_date')
S.eq('key rates compare by date', 'a: date, b: date', 'x = KeyRate(DayCountConvention.ACTUAL_OVER_360, a)\ny = KeyRate(DayCountConvention.ACTUAL_OVER_ACTUAL, b)\nreturn (x < y, x <= y, x > y, x >= y)', '(a < b, a <= b, a > b, a >= b)', at='KeyRate.__lt__')
for c1 in ('ACTUAL_OVER_360', 'ACTUAL_OVER_ACTUAL'):
    S.eq(f'key rates are equal by date and convention, {c1}', 'a: date, b: date, u: num, p: date, n: date', f'x = KeyRate(DayCountConvention.{c1}, a, p, n)\ny = KeyRate(DayCountConvention.ACTUAL_OVER_360, b)\ny.set_bump_val(u)\nreturn (x == y, x != y)',
         '(a == b, a != b)' if c1 == 'ACTUAL_OVER_360' else '(False, True)', pre=['p < a', 'a < n'], at='KeyRate.__eq__')
S.eq('iterating a key rate gives itself', A, f'k = {K}\nreturn [x.key_rate_date for x in k]', '[m]', pre=O, at='KeyRate.__iter__')
S.eq('equal key rates have one hash', 'a: date, u: num, p: date, n: date', 'x = KeyRate(DayCountConvention.ACTUAL_OVER_360, a, p, n)\ny = KeyRate(DayCountConvention.ACTUAL_OVER_360, a)\ny.set_bump_val(u)\nreturn (hash(x) == hash(y), x in {y}, len({x, y}))',
     '(True, True, 1)', pre=['p < a', 'a < n'], at='KeyRate.__hash__')
