from ob import Spec
IMPORTS = '''
import numpy as np
from datetime import date, datetime, timedelta
from dateutil.relativedelta import relativedelta
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion, datetime_to_path_call
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
'''
HELP = '''
AA = DayCountConvention.ACTUAL_OVER_ACTUAL
def tau(a, b, dcc=AA):
    return DayCountCalculator.compute_accrual_length(a, b, dcc)
def between(x, u, v, p, q, dcc=AA):
    f = tau(u, x, dcc) / (tau(u, x, dcc) + tau(x, v, dcc))
    return p * (1 - f) + q * f
def raw(a, b, h):
    return Scheduler.generate_dates_by_increments(start_date=a, end_date=b, increment=h, max_dates=1_000_000)
def shown(y, n):
    return tuple(y[q] for q in range(n))
'''
S = Spec('C24', IMPORTS, HELP)
OP = ('DayCountCalculator.compute_accrual_length', 'Scheduler.generate_dates_by_increments')
F = 'datetime_to_path_call'
G = 'x: datetime, u: datetime, v: datetime, w: datetime, p: num, q: num, r: num'
SRT = ['u < v', 'v < w']
ONE = 'y = datetime_to_path_call(x, u, w, AA, [u, v, w], np.array([[p, q, r]]))\nreturn y[0]'
S.eq('no path yet', 'x: datetime, u: datetime, w: datetime', 'datetime_to_path_call(x, u, w, AA, [u, w], None)', 'raise ValueError()', at=F, wrong='0.0')
S.eq('before the start', G, ONE, 'raise ValueError()', pre=SRT + ['x < u'], at=F)
S.eq('after the end', G, ONE, 'raise ValueError()', pre=SRT + ['x > w'], at=F)
for k, (i, val) in enumerate((('u', 'p'), ('v', 'q'), ('w', 'r'))):
    S.eq(f'at grid point {k}', G, ONE, f'return {val}', pre=SRT + [f'x == {i}'], opaque=OP, at=F, wrong='return (p + q + r) / 3')
S.eq('in the first interval', G, ONE, 'return between(x, u, v, p, q)', pre=SRT + ['u < x', 'x < v'], opaque=OP, at=F, wrong='return between(x, u, v, q, p)')
S.eq('in the last interval', G, ONE, 'return between(x, v, w, q, r)', pre=SRT + ['v < x', 'x < w'], opaque=OP, at=F, wrong='return between(x, v, w, r, q)')
for dcc in ('ACTUAL_OVER_360', 'ACTUAL_OVER_365', 'THIRTY_OVER_THREESIXTY'):
    S.eq(f'in an interval under {dcc}', G, ONE.replace('AA', f'DayCountConvention.{dcc}'), f'return between(x, v, w, q, r, DayCountConvention.{dcc})', pre=SRT + ['v < x', 'x < w'], opaque=OP, at=F)
T = 'y = datetime_to_path_call(x, u, w, AA, [u, v, w], np.array([[p, q, r], [r, p, q]]))\nreturn shown(y, 2)'
S.eq('several components in an interval', G, T, 'return (between(x, u, v, p, q), between(x, u, v, r, p))', pre=SRT + ['u < x', 'x < v'], opaque=OP, at=F)
S.eq('several components at a grid point', G, T, 'return (q, p)', pre=SRT + ['x == v'], opaque=OP, at=F)
GEN = 'x: datetime, g: seq:datetime, k: int, c: fn:num'
L = 'y = datetime_to_path_call(x, g[0], g[-1], AA, g, np.array([[c(j) for j in range(len(g))]]))\nreturn y[0]'
GP = ['0 <= k', 'k < len(g) - 1', 'g[0] <= g[k]', 'g[k + 1] <= g[-1]', 'g[k] <= g[-1]']
S.eq('in any interval of any grid', GEN, L, 'return between(x, g[k], g[k + 1], c(k), c(k + 1))', pre=GP + ['g[k] < x', 'x < g[k + 1]'], opaque=OP, at=F, wrong='return between(x, g[k], g[k + 1], c(k + 1), c(k))')
S.eq('at any point of any grid', GEN, L, 'return c(k)', pre=GP + ['k > 0', 'g[k] == x', 'g[k - 1] < x'], opaque=OP, at=F)
A = 'x: datetime, a: datetime, b: datetime, h: timedelta, n: int'
P = ['a < b', 'len(raw(a, b, h)) > 1', 'raw(a, b, h)[0] == a', 'raw(a, b, h)[-1] == b']
B = 'BrownianMotion.__call__'
S.eq('a Brownian motion before its path', 'x: datetime, a: datetime, b: datetime', 'BrownianMotion(a, b)(x)', 'raise ValueError()', pre=['a < b'], at=B)
S.eq('a Brownian motion with only increments', A, 'm = BrownianMotion(a, b)\nm.generate_increments(h, n)\nreturn m(x)', 'raise ValueError()', pre=P, opaque=OP, at=B)
S.eq('a Brownian motion after its end', A, 'm = BrownianMotion(a, b)\nm.generate_path(h, seed=n)\nreturn m(x)', 'raise ValueError()', pre=P + ['x > b'], opaque=OP, at=B)
S.eq('a Brownian motion before its start', A, 'm = BrownianMotion(a, b)\nm.generate_path(h, seed=n)\nreturn m(x)', 'raise ValueError()', pre=P + ['x < a'], opaque=OP, at=B)
S.eq('a Brownian motion at its start', A, 'm = BrownianMotion(a, b)\nm.generate_path(h, seed=n)\nreturn m(a)[0]', '0.0', pre=P, opaque=OP, at=B)
W = 'g = raw(a, b, h)\nt = [tau(s, e) for s, e in zip(g, g[1:])]\nnp.random.seed(n)\nz = np.random.standard_normal((1, len(t)))\nw = lambda i: sum(z[0, j] * t[j] ** 0.5 for j in range(i))\n'
K = P + ['a <= raw(a, b, h)[k]', 'raw(a, b, h)[k + 1] <= b', 'raw(a, b, h)[k] <= b', '0 <= k', 'k < len(raw(a, b, h)) - 1']
S.eq('a Brownian motion at a grid point', A + ', k: int', 'm = BrownianMotion(a, b)\nm.generate_path(h, seed=n)\nreturn m(x)[0]', W + 'return w(k)', pre=K + ['k > 0', 'raw(a, b, h)[k] == x', 'raw(a, b, h)[k - 1] < x'], opaque=OP, at=B)
S.eq('a Brownian motion in an interval', A + ', k: int', 'm = BrownianMotion(a, b)\nm.generate_path(h, seed=n)\nreturn m(x)[0]', W + 'return between(x, g[k], g[k + 1], w(k), w(k + 1))',
     pre=K + ['raw(a, b, h)[k] < x', 'x < raw(a, b, h)[k + 1]'], opaque=OP, at=B)
S.eq('a Brownian motion in an interval after other increments', A + ', k: int, h2: timedelta', 'm = BrownianMotion(a, b)\nm.generate_path(h, seed=n)\nm.generate_increments(h2, n)\nreturn m(x)[0]', W + 'return between(x, g[k], g[k + 1], w(k), w(k + 1))',
     pre=K + ['raw(a, b, h)[k] < x', 'x < raw(a, b, h)[k + 1]', 'len(raw(a, b, h2)) > 1', 'raw(a, b, h2)[-1] == b'], opaque=OP, at=B)
S.eq('a Brownian motion in an interval after a path not set', A + ', k: int, h2: timedelta', 'm = BrownianMotion(a, b)\nm.generate_path(h, seed=n)\nm.generate_path(h2, set_path=False, seed=n)\nreturn m(x)[0]', W + 'return between(x, g[k], g[k + 1], w(k), w(k + 1))',
     pre=K + ['raw(a, b, h)[k] < x', 'x < raw(a, b, h)[k + 1]', 'len(raw(a, b, h2)) > 1', 'raw(a, b, h2)[-1] == b'], opaque=OP, at=B)
