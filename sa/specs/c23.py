from ob import Spec
IMPORTS = '''
import numpy as np
from datetime import date, datetime, timedelta
from dateutil.relativedelta import relativedelta
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
'''
HELP = '''
AA = DayCountConvention.ACTUAL_OVER_ACTUAL
def raw(a, b, h):
    return Scheduler.generate_dates_by_increments(start_date=a, end_date=b, increment=h, max_dates=1_000_000)
def grid(a, b, h):
    g = raw(a, b, h)
    return g + [b] if g[-1] < b else g
def steps(a, b, h, dcc=AA):
    g = grid(a, b, h)
    return [DayCountCalculator.compute_accrual_length(s, e, dcc) for s, e in zip(g, g[1:])]
def normals(n, p, t):
    np.random.seed(n)
    return np.random.standard_normal((p, len(t)))
def values(x, p):
    return tuple([v for v in x[q]] for q in range(p))
'''
S = Spec('C23', IMPORTS, HELP)
OP = ('DayCountCalculator.compute_accrual_length', 'Scheduler.generate_dates_by_increments')
A = 'a: datetime, b: datetime, h: timedelta, n: int'
AR = 'a: datetime, b: datetime, h: rd, n: int'
CASES = (('', ['a < b', 'len(raw(a, b, h)) > 0', 'raw(a, b, h)[-1] >= b']), (' with a short last step', ['a < b', 'len(raw(a, b, h)) > 0', 'raw(a, b, h)[-1] < b']))
GI, GP = 'BrownianMotion.generate_increments', 'BrownianMotion.generate_path'
C2 = 'np.array([[1.0, c], [c, 1.0]])'
C3 = 'np.array([[1.0, c, d], [c, 1.0, e], [d, e, 1.0]])'
TWO = '(z[0, i] * t[i] ** 0.5 for i in range(len(t)))', '((c * z[0, i] + (1 - c * c) ** 0.5 * z[1, i]) * t[i] ** 0.5 for i in range(len(t)))'
for case, pre in CASES:
    S.eq('grid and steps' + case, A, 'm = BrownianMotion(a, b)\nx, t = m.generate_increments(h, n)\nreturn (m.datetimes, list(t), list(m.dt_increments))',
         't = steps(a, b, h)\nreturn (grid(a, b, h), t, t)', pre=pre, opaque=OP, at=GI, wrong='t = steps(a, b, h)\nreturn (raw(a, b, h)[1:], t, t)')
    S.eq('grid and steps by calendar increments' + case, AR, 'm = BrownianMotion(a, b)\nx, t = m.generate_increments(h, n)\nreturn (m.datetimes, list(t))', 'return (grid(a, b, h), steps(a, b, h))', pre=pre, opaque=OP, at=GI)
    for dcc in ('ACTUAL_OVER_360', 'ACTUAL_OVER_365'):
        S.eq(f'steps under {dcc}' + case, A, f'm = BrownianMotion(a, b, day_count_convention=DayCountConvention.{dcc})\nx, t = m.generate_increments(h, n)\nreturn (list(t), x.shape, [v for v in x[0]])',
             f't = steps(a, b, h, DayCountConvention.{dcc})\nz = normals(n, 1, t)\nreturn (t, (1, len(t)), [z[0, i] * t[i] ** 0.5 for i in range(len(t))])', pre=pre, opaque=OP, at=GI)
    S.eq('increments in one dimension' + case, A, 'x, t = BrownianMotion(a, b).generate_increments(h, n)\nreturn ([v for v in x[0]], x.shape)',
         't = steps(a, b, h)\nz = normals(n, 1, t)\nreturn ([z[0, i] * t[i] ** 0.5 for i in range(len(t))], (1, len(t)))', pre=pre, opaque=OP, at=GI,
         wrong='t = steps(a, b, h)\nz = normals(n, 1, t)\nreturn ([z[0, i] * t[i] for i in range(len(t))], (1, len(t)))')
    S.eq('increments with correlation' + case, A + ', c: num', f'x, t = BrownianMotion(a, b, 2, {C2}).generate_increments(h, n)\nreturn values(x, 2)',
         f't = steps(a, b, h)\nz = normals(n, 2, t)\nreturn ([v for v in {TWO[0]}], [v for v in {TWO[1]}])', pre=pre + ['c * c < 1'], opaque=OP, at=GI,
         wrong=f't = steps(a, b, h)\nz = normals(n, 2, t)\nreturn ([v for v in {TWO[1]}], [v for v in {TWO[0]}])')
    S.eq('increments without correlation' + case, A, 'x, t = BrownianMotion(a, b, 3).generate_increments(h, n)\nreturn values(x, 3)',
         't = steps(a, b, h)\nz = normals(n, 3, t)\nreturn tuple([z[q, i] * t[i] ** 0.5 for i in range(len(t))] for q in range(3))', pre=pre, opaque=OP, at=GI)
    S.eq('increments in three dimensions' + case, A + ', c: num, d: num, e: num', f'x, t = BrownianMotion(a, b, 3, {C3}).generate_increments(h, n)\nreturn values(x, 3)',
         f't = steps(a, b, h)\nz = normals(n, 3, t)\nl = (1 - c * c) ** 0.5\nf = (e - c * d) / l\nreturn ([z[0, i] * t[i] ** 0.5 for i in range(len(t))], [(c * z[0, i] + l * z[1, i]) * t[i] ** 0.5 for i in range(len(t))], '
         '[(d * z[0, i] + f * z[1, i] + (1 - d * d - f * f) ** 0.5 * z[2, i]) * t[i] ** 0.5 for i in range(len(t))])', pre=pre + ['c * c < 1'], opaque=OP, at=GI)
    S.eq('path' + case, A, 'x = BrownianMotion(a, b).generate_path(h, seed=n)\nreturn [v for v in x[0]]',
         't = steps(a, b, h)\nz = normals(n, 1, t)\nreturn [sum(z[0, i] * t[i] ** 0.5 for i in range(k)) for k in range(len(t) + 1)]', pre=pre, opaque=OP, at=GP,
         wrong='t = steps(a, b, h)\nz = normals(n, 1, t)\nreturn [sum(z[0, i] * t[i] ** 0.5 for i in range(k + 1)) for k in range(len(t) + 1)]')
    if not case: S.eq('path with correlation' + case, A + ', c: num', f'x = BrownianMotion(a, b, 2, {C2}).generate_path(h, seed=n)\nreturn values(x, 2)',
         f't = steps(a, b, h)\nz = normals(n, 2, t)\nreturn ([sum(z[0, i] * t[i] ** 0.5 for i in range(k)) for k in range(len(t) + 1)], [sum((c * z[0, i] + (1 - c * c) ** 0.5 * z[1, i]) * t[i] ** 0.5 for i in range(k)) for k in range(len(t) + 1)])',
         pre=pre + ['c * c < 1'], opaque=OP, at=GP)
    S.eq('the path is kept' + case, A, 'm = BrownianMotion(a, b)\nx = m.generate_path(h, seed=n)\nreturn [v for v in m.path[0]]',
         't = steps(a, b, h)\nz = normals(n, 1, t)\nreturn [sum(z[0, i] * t[i] ** 0.5 for i in range(k)) for k in range(len(t) + 1)]', pre=pre, opaque=OP, at=GP)
pre = CASES[0][1]
S.eq('a path not set is returned but not kept', A + ', k: int', 'm = BrownianMotion(a, b)\nm.generate_path(h, seed=k)\nx = m.generate_path(h, set_path=False, seed=n)\nreturn ([v for v in x[0]], [v for v in m.path[0]])',
     't = steps(a, b, h)\ny = normals(k, 1, t)\nz = normals(n, 1, t)\nreturn tuple([sum(w[0, i] * t[i] ** 0.5 for i in range(j)) for j in range(len(t) + 1)] for w in (z, y))', pre=pre, opaque=OP, at=GP)
S.eq('the same seed gives the same path', A, 'm = BrownianMotion(a, b)\nx = m.generate_path(h, seed=n)\nm.generate_increments(h, 5)\ny = m.generate_path(h, seed=n)\nreturn [v for v in y[0]]',
     't = steps(a, b, h)\nz = normals(n, 1, t)\nreturn [sum(z[0, i] * t[i] ** 0.5 for i in range(k)) for k in range(len(t) + 1)]', pre=pre, opaque=OP, at=GP)
S.eq('before any path', 'a: datetime, b: datetime, p: int', 'm = BrownianMotion(a, b, 2)\nreturn (m.path, m.start_date_time, m.end_date_time, m.dimension, m.day_count_convention)', 'return (None, a, b, 2, AA)', at='BrownianMotion.__init__')
