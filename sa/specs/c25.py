from ob import Spec
IMPORTS = '''
import numpy as np
from datetime import date, datetime, timedelta
from dateutil.relativedelta import relativedelta
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.base_processes import DiffusionProcess, DriftDiffusionPair
from fixedIncome.src.stochastics.geometric_brownian_motion import GeometricBrownianMotion, geometric_brownian_motion_drift_diffusion
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
'''
HELP = '''
AA = DayCountConvention.ACTUAL_OVER_ACTUAL
def raw(a, b, h):
    return Scheduler.generate_dates_by_increments(start_date=a, end_date=b, increment=h, max_dates=1_000_000)
def tau(a, b, dcc=AA):
    return DayCountCalculator.compute_accrual_length(a, b, dcc)
def steps(a, b, h, dcc=AA):
    g = raw(a, b, h)
    return [tau(s, e, dcc) for s, e in zip(g, g[1:])]
def normals(n, p, t):
    np.random.seed(n)
    return np.random.standard_normal((p, len(t)))
class Noise(BrownianMotion):
    """increments given in advance"""
    def __init__(self, a, b, dw, dt, grid, dcc=AA):
        super().__init__(a, b, len(dw), day_count_convention=dcc)
        self.dw, self.dt, self.grid, self.asked = dw, dt, grid, None
    @property
    def datetimes(self):
        return self.grid
    @property
    def dt_increments(self):
        return np.array(self.dt)
    def generate_increments(self, dt, seed=None):
        self.asked = (dt, seed)
        return np.array(self.dw), np.array(self.dt)
class Rec(Noise):
    def generate_increments(self, dt, seed=None):
        self.asked = (dt, seed)
        return super().generate_increments(dt, seed)
def rows(x, n):
    return tuple([v for v in x[q]] for q in range(n))
'''
S = Spec('C25', IMPORTS, HELP)
OP = ('DayCountCalculator.compute_accrual_length', 'Scheduler.generate_dates_by_increments')
D, GB = 'DiffusionProcess.generate_path', 'GeometricBrownianMotion.generate_path'
A = 'a: datetime, b: datetime, h: timedelta, n: int'
PRE = ['a < b', 'len(raw(a, b, h)) > 0', 'raw(a, b, h)[-1] >= b']
# one state variable, any grid
ONE = 'p = DiffusionProcess({"x": DriftDiffusionPair(lambda t, x: mu(t, x[0]), lambda t, x: np.array([sg(t, x[0])]))}, BrownianMotion(a, b), h)\n'
SCH = '''
t = steps(a, b, h)
z = normals(n, 1, t)
x, s, out = x0, 0, []
for i in range(len(t)):
    out.append(x)
    x = x + mu(s, x) * t[i] + sg(s, x) * z[0, i] * t[i] ** 0.5
    s += t[i]
'''
V = A + ', x0: num, mu: fn:num, sg: fn:num'
S.eq('one state variable on any grid', V, ONE + 'y = p.generate_path(np.array([x0]), seed=n)\nreturn [v for v in y[0]]', SCH + 'return out + [x]', pre=PRE, opaque=OP, at=D,
     wrong=SCH.replace('mu(s, x)', 'mu(s, x0)') + 'return out + [x]')
S.eq('the path is kept', V, ONE + 'y = p.generate_path(np.array([x0]), seed=n)\nreturn [v for v in p.path[0]]', SCH + 'return out + [x]', pre=PRE, opaque=OP, at=D)
# given increments: one to three state variables, three steps
N1 = 'Noise(a, b, [[u, v, w]], [i, j, k], [a, c, d, b])'
G = 'a: datetime, c: datetime, d: datetime, b: datetime, i: pos, j: pos, k: pos, u: num, v: num, w: num, x0: num'
F1 = '{"x": DriftDiffusionPair(lambda t, x: mu(t, x[0]), lambda t, x: np.array([sg(t, x[0])]))}'
R1 = '''
x1 = x0 + mu(0, x0) * i + sg(0, x0) * u
x2 = x1 + mu(i, x1) * j + sg(i, x1) * v
x3 = x2 + mu(i + j, x2) * k + sg(i + j, x2) * w
'''
GF = G + ', mu: fn:num, sg: fn:num'
S.eq('three steps of one state variable', GF, f'p = DiffusionProcess({F1}, {N1})\nreturn rows(p.generate_path(np.array([x0])), 1)', R1 + 'return ([x0, x1, x2, x3],)', at=D, wrong=R1 + 'return ([x1, x1, x2, x3],)')
S.eq('a path that is not kept', GF + ', q: num', f'p = DiffusionProcess({F1}, {N1})\ny = p.generate_path(np.array([x0]), set_path=False)\nreturn (rows(y, 1), p.path)', R1 + 'return (([x0, x1, x2, x3],), None)', at=D)
S.eq('a path not kept leaves the one before', G + ', q: num', f'p = DiffusionProcess({{"x": DriftDiffusionPair(lambda t, x: 0.0, lambda t, x: np.array([1.0]))}}, {N1})\np.generate_path(np.array([q]))\np.generate_path(np.array([x0]), set_path=False)\nreturn rows(p.path, 1)',
     'return ([q, q + u, q + u + v, q + u + v + w],)', at=D)
N2 = 'Noise(a, b, [[u, v], [p, q]], [i, j], [a, c, b])'
G2 = 'a: datetime, c: datetime, b: datetime, i: pos, j: pos, u: num, v: num, p: num, q: num, x0: num, y0: num, mu: fn:num, nu: fn:num, sg: fn:num, ta: fn:num, rh: num'
F2 = '{"x": DriftDiffusionPair(lambda t, x: mu(t, x[0], x[1]), lambda t, x: np.array([sg(t, x[0]), 0.0])), "y": DriftDiffusionPair(lambda t, x: nu(t, x[0], x[1]), lambda t, x: np.array([rh, ta(t, x[1])]))}'
R2 = '''
x1 = x0 + mu(0, x0, y0) * i + sg(0, x0) * u
y1 = y0 + nu(0, x0, y0) * i + rh * u + ta(0, y0) * p
x2 = x1 + mu(i, x1, y1) * j + sg(i, x1) * v
y2 = y1 + nu(i, x1, y1) * j + rh * v + ta(i, y1) * q
return ([x0, x1, x2], [y0, y1, y2])
'''
S.eq('two coupled state variables', G2, f'm = DiffusionProcess({F2}, {N2})\nreturn rows(m.generate_path(np.array([x0, y0])), 2)', R2, at=D, wrong=R2.replace('nu(0, x0, y0)', 'nu(0, x1, y0)'))
S.eq('two state variables from a list', G2, f'm = DiffusionProcess({F2}, {N2})\nreturn rows(m.generate_path([x0, y0]), 2)', R2, at=D)
N3 = 'Noise(a, b, [[u, v], [p, q], [e, f]], [i, j], [a, c, b])'
G3 = 'a: datetime, c: datetime, b: datetime, i: pos, j: pos, u: num, v: num, p: num, q: num, e: num, f: num, x0: num, y0: num, z0: num, mu: fn:num, sg: fn:num'
F3 = '{k: DriftDiffusionPair((lambda n: lambda t, x: mu(n, t, x[0], x[1], x[2]))(n), (lambda n: lambda t, x: np.array([sg(n, 0, t), sg(n, 1, t), sg(n, 2, t)]))(n)) for n, k in enumerate(("r", "s", "l"))}'
R3 = '''
def sh(n, t, s):
    return sg(n, 0, t) * s[0] + sg(n, 1, t) * s[1] + sg(n, 2, t) * s[2]
s, r = [x0, y0, z0], [u, p, e]
o = [s[n] + mu(n, 0, s[0], s[1], s[2]) * i + sh(n, 0, r) for n in range(3)]
r2 = [v, q, f]
g = [o[n] + mu(n, i, o[0], o[1], o[2]) * j + sh(n, i, r2) for n in range(3)]
return ([x0, o[0], g[0]], [y0, o[1], g[1]], [z0, o[2], g[2]])
'''
S.eq('three coupled state variables', G3, f'm = DiffusionProcess({F3}, {N3})\nreturn rows(m.generate_path(np.array([x0, y0, z0])), 3)', R3, at=D)
S.eq('one state variable driven by two Brownian motions', G2, f'm = DiffusionProcess({{"x": DriftDiffusionPair(lambda t, x: mu(t, x[0]), lambda t, x: np.array([sg(t, x[0]), rh]))}}, {N2})\ny = m.generate_path(np.array([x0]))\nreturn rows(y, 1)',
     'x1 = x0 + mu(0, x0) * i + sg(0, x0) * u + rh * p\nx2 = x1 + mu(i, x1) * j + sg(i, x1) * v + rh * q\nreturn ([x0, x1, x2],)', at=D)
S.eq('the starting value is not changed', G2, f'm = DiffusionProcess({F2}, {N2})\ns = np.array([x0, y0])\nm.generate_path(s)\nreturn (s[0], s[1])', '(x0, y0)', at=D)
# reading the process
B1 = f'p = DiffusionProcess({F1}, {N1})\np.generate_path(np.array([x0]))\n'
ORD = ['a < c', 'c < d', 'd < b']
S.eq('read at a grid point', GF, B1 + 'return p(d)[0]', R1 + 'return x2', pre=ORD, at='DiffusionProcess.__call__')
S.eq('read between grid points', GF + ', x: datetime', B1 + 'return p(x)[0]', R1 + 'f = tau(c, x) / (tau(c, x) + tau(x, d))\nreturn x1 * (1 - f) + x2 * f', pre=ORD + ['c < x', 'x < d'], opaque=OP, at='DiffusionProcess.__call__')
S.eq('read before its path', GF, f'p = DiffusionProcess({F1}, {N1})\nreturn p(c)', 'raise ValueError()', pre=ORD, at='DiffusionProcess.__call__')
S.eq('read after its end', GF + ', x: datetime', B1 + 'return p(x)', 'raise ValueError()', pre=ORD + ['x > b'], at='DiffusionProcess.__call__')
S.eq('read on its own grid after other increments', GF, B1 + f'p.brownian_motion.grid = [a, b]\np.brownian_motion.generate_increments(p.dt)\nreturn p(d)[0]', R1 + 'return x2', pre=ORD, at='DiffusionProcess.generate_path')
S.eq('a new increment drops the path', GF + ', h: timedelta', B1 + 'p.set_dt(h)\nreturn (p.path, p.dt)', '(None, h)', at='DiffusionProcess.set_dt')
S.eq('the increments are asked for with the increment and the seed', V, 'r = Rec(a, b, [[1.0]], [1.0], [a, b])\n'
     'p = DiffusionProcess({"x": DriftDiffusionPair(lambda t, x: 0.0, lambda t, x: np.array([0.0]))}, r, h)\np.generate_path(np.array([x0]), seed=n)\nreturn r.asked', '(h, n)', at=D)
S.eq('what a process knows', G2, f'm = DiffusionProcess({F2}, {N2})\nreturn (m.start_date_time, m.end_date_time, m.dimension, m.dt, m.day_count_convention, m.path)', '(a, b, 2, relativedelta(hours=1), AA, None)', at='DiffusionProcess.__init__')
# geometric Brownian motion
S.eq('drift and volatility of a geometric Brownian motion', 'mu: num, sg: num, t: num, x: num', 'p = geometric_brownian_motion_drift_diffusion(mu, sg)\nreturn (p.drift(t, x), p.diffusion(t, x))', '(mu * x, sg * x)', at='geometric_brownian_motion_drift_diffusion',
     wrong='(mu * x, sg)')
GS = '''
t = steps(a, b, h)
z = normals(n, 1, t)
x, out = x0, []
for i in range(len(t)):
    out.append(x)
    x = x + mu * x * t[i] + sg * x * z[0, i] * t[i] ** 0.5
'''
S.eq('geometric Brownian motion on any grid', A + ', mu: num, sg: num, x0: num', 'g = GeometricBrownianMotion(mu, sg, a, b, dt=h)\ny = g.generate_path(np.array([x0]), seed=n)\nreturn [v for v in y[0]]', GS + 'return out + [x]', pre=PRE, opaque=OP, at=GB,
     wrong=GS.replace('mu * x *', 'mu * x0 *') + 'return out + [x]')
S.eq('the geometric path is kept', A + ', mu: num, sg: num, x0: num', 'g = GeometricBrownianMotion(mu, sg, a, b, dt=h)\ng.generate_path(np.array([x0]), seed=n)\ny = g.path\nreturn [v for v in y[0]]', GS + 'return out + [x]', pre=PRE, opaque=OP, at=GB)
GG = 'a: datetime, b: datetime, i: pos, j: pos, u: num, v: num, p: num, q: num, mu: num, sg: num, x0: num, y0: num'
GC = 'g = GeometricBrownianMotion(mu, sg, a, b, dimension=2, correlation_matrix=np.array([[1.0, c], [c, 1.0]]), dt=h)\n'
S.eq('two correlated geometric Brownian motions', A + ', mu: num, sg: num, x0: num, y0: num, c: num', GC + 'return rows(g.generate_path(np.array([x0, y0]), seed=n), 2)', '''
t = steps(a, b, h)
z = normals(n, 2, t)
x, y, xs, ys = x0, y0, [], []
for i in range(len(t)):
    xs.append(x)
    ys.append(y)
    x, y = x + mu * x * t[i] + sg * x * z[0, i] * t[i] ** 0.5, y + mu * y * t[i] + sg * y * (c * z[0, i] + (1 - c * c) ** 0.5 * z[1, i]) * t[i] ** 0.5
return (xs + [x], ys + [y])
''', pre=PRE + ['c * c < 1'], opaque=OP, at=GB)
S.eq('a geometric path not kept', A + ', mu: num, sg: num, x0: num', 'g = GeometricBrownianMotion(mu, sg, a, b, dt=h)\ng.generate_path(np.array([x0]), set_path=False, seed=n)\nreturn g.path', 'None', pre=PRE, opaque=OP, at=GB)
GG = 'a: datetime, b: datetime, mu: num, sg: num'
S.eq('the Brownian motion of a geometric one', GG + ', h: timedelta, c: num', 'g = GeometricBrownianMotion(mu, sg, a, b, dimension=2, correlation_matrix=np.array([[1.0, c], [c, 1.0]]), dt=h)\nm = g.brownian_motion\nreturn (m.start_date_time, m.end_date_time, m.dimension, m.correlation_matrix[0, 1], m.correlation_matrix[1, 1], g.dt, g.drift, g.volatility, g.dimension)',
     '(a, b, 2, c, 1.0, h, mu, sg, 2)', pre=['c * c < 1'], at='GeometricBrownianMotion.__init__')
S.eq('what a geometric Brownian motion knows', GG + ', h: timedelta', 'g = GeometricBrownianMotion(mu, sg, a, b, dt=h)\nm = GeometricBrownianMotion(mu, sg, a, b)\nreturn (g.start_date_time, g.end_date_time, g.dimension, g.correlation_matrix[0, 0], g.dt, g.path, m.dt)', '(a, b, 1, 1.0, h, None, relativedelta(hours=1))', at='GeometricBrownianMotion.__init__',
     wrong='(a, b, 1, 1.0, h, None, relativedelta(hours=2))')
