from ob import Spec
IMPORTS = '''
import numpy as np
import math
from datetime import date, datetime, timedelta
from dateutil.relativedelta import relativedelta
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.base_processes import DiffusionProcess, DriftDiffusionPair
from fixedIncome.src.stochastics.short_rate_models.base_short_rate_model import ShortRateModel
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.curves.curve_enumerations import CurveIndex, EndBehavior, InterpolationMethod
'''
HELP = '''
AA = DayCountConvention.ACTUAL_OVER_ACTUAL
class Noise(BrownianMotion):
    """increments given in advance"""
    def __init__(self, a, b, dw, dt, grid, dcc=AA):
        super().__init__(a, b, len(dw), day_count_convention=dcc)
        self.dw, self.dt, self.grid, self.asked = dw, dt, grid, None
    @property
    def datetimes(self):
        return self.grid
    @property
    def dt_increments(self):
        return np.array(self.dt)
    def generate_increments(self, dt, seed=None):
        self.asked = (dt, seed)
        return np.array(self.dw), np.array(self.dt)
class State(DiffusionProcess):
    """a state whose values are given in advance"""
    def __init__(self, a, b, f, h, dcc=AA):
        super().__init__({}, Noise(a, b, [[0.0]], [1.0], [a, b], dcc), h)
        self.f = f
    def __call__(self, datetime_obj):
        return [self.f(datetime_obj)]
    def generate_path(self, starting_value, set_path=True, seed=None):
        return np.array([[starting_value, starting_value]])
def tau(a, b, dcc=AA):
    return DayCountCalculator.compute_accrual_length(a, b, dcc)
def raw(a, b, h):
    return Scheduler.generate_dates_by_increments(start_date=a, end_date=b, increment=h, max_dates=1_000_000)
def two(a, b, g, dw, dt, mu, sg, h):
    """two independent state variables"""
    return DiffusionProcess({"x": DriftDiffusionPair(lambda t, x: mu(0, t, x[0]), lambda t, x: np.array([sg(0), 0.0])),
                             "y": DriftDiffusionPair(lambda t, x: mu(1, t, x[1]), lambda t, x: np.array([0.0, sg(1)]))}, Noise(a, b, dw, dt, g), h)
def model(a, b, f, h, dcc=AA):
    m = ShortRateModel(lambda x: x[0], State(a, b, f, h, dcc))
    m.generate_path(0.0)
    return m
def knots(c):
    return [(k.knot, k.value) for k in c.interpolation_values]
def integral(f, ds, k, dcc=AA):
    return sum((f(ds[i]) + f(ds[i + 1])) / 2 * tau(ds[i], ds[i + 1], dcc) for i in range(k))
'''
S = Spec('C26', IMPORTS, HELP)
OP = ('DayCountCalculator.compute_accrual_length', 'Scheduler.generate_dates_by_increments')
M = 'ShortRateModel.'
G = 'a: datetime, c: datetime, b: datetime, i: pos, j: pos, u: num, v: num, p: num, q: num, x0: num, y0: num, mu: fn:num, sg: fn:num, tr: fn:num, h: timedelta, n: int'
TWO = 'm = ShortRateModel(lambda x: tr(x[0], x[1]), two(a, b, [a, c, b], [[u, v], [p, q]], [i, j], mu, sg, h))\n'
R = '''
x1 = x0 + mu(0, 0, x0) * i + sg(0) * u
y1 = y0 + mu(1, 0, y0) * i + sg(1) * p
x2 = x1 + mu(0, i, x1) * j + sg(0) * v
y2 = y1 + mu(1, i, y1) * j + sg(1) * q
'''
S.eq('the path is the transformed state', G, TWO + 'y = m.generate_path(np.array([x0, y0]))\nreturn ([s for s in y], [s for s in m.path], [s for s in m.short_rate_path])',
     R + 'r = [tr(x0, y0), tr(x1, y1), tr(x2, y2)]\nreturn (r, r, r)', at=M + 'generate_path', wrong=R + 'r = [tr(x0, y0), tr(x1, y1), tr(x1, y2)]\nreturn (r, r, r)')
S.eq('the increment and the seed reach the noise', G, TWO + 'm.generate_path(np.array([x0, y0]), seed=n)\nreturn m.brownian_motion.asked', '(h, n)', at=M + 'generate_path')
S.eq('a path not kept', G, TWO + 'm.generate_path(np.array([x0, y0]), set_path=False)\nreturn (m.path, m.short_rate_path)', '(None, None)', at=M + 'generate_path')
ORD = ['a < c', 'c < b']
S.eq('a path not kept leaves the model as it was', G, TWO + 'm.generate_path(np.array([x0, y0]))\ns = m.create_discount_curve([a, b])\nm.generate_path(np.array([y0, x0]), set_path=False)\nreturn ([s for s in m.path], m(c), m.discount_curve is s, len(m.integrated_path))',
     R + 'return ([tr(x0, y0), tr(x1, y1), tr(x2, y2)], tr(x1, y1), True, 2)', pre=ORD, opaque=OP, at=M + 'generate_path')
S.eq('read at a grid point', G, TWO + 'm.generate_path(np.array([x0, y0]))\nreturn m(c)', R + 'return tr(x1, y1)', pre=ORD, at=M + '__call__')
S.eq('read between grid points', G + ', d: datetime', TWO + 'm.generate_path(np.array([x0, y0]))\nreturn m(d)', R + 'f = tau(c, d) / (tau(c, d) + tau(d, b))\nreturn tr(x1 * (1 - f) + x2 * f, y1 * (1 - f) + y2 * f)', pre=ORD + ['c < d', 'd < b'], opaque=OP, at=M + '__call__',
     wrong=R + 'f = tau(c, d) / (tau(c, d) + tau(d, b))\nreturn tr(x1 * f + x2 * (1 - f), y1 * (1 - f) + y2 * f)')
S.eq('read before any path', G, TWO + 'return m(c)', 'raise ValueError()', pre=ORD, at=M + '__call__')
S.eq('read outside the simulated times', G + ', d: datetime', TWO + 'm.generate_path(np.array([x0, y0]))\nreturn m(d)', 'raise ValueError()', pre=ORD + ['d > b'], at=M + '__call__')
# integral and curves
A = 'a: datetime, b: datetime, f: fn:num, h: timedelta'
AL = A + ', ds: seq:datetime'
S.eq('integrated path', AL, 'm = model(a, b, f, h)\ny = m.generate_integrated_path(ds)\nreturn [s for s in y]', 'return [integral(f, ds, k) for k in range(len(ds))]', pre=['len(ds) > 0'], opaque=OP, at=M + 'generate_integrated_path',
     wrong='return [integral(f, ds, k + 1) for k in range(len(ds))]')
for dcc in ('ACTUAL_OVER_360', 'ACTUAL_OVER_365'):
    S.eq(f'integrated path under {dcc}', AL, f'm = model(a, b, f, h, DayCountConvention.{dcc})\ny = m.generate_integrated_path(ds)\nreturn [s for s in y]', f'return [integral(f, ds, k, DayCountConvention.{dcc}) for k in range(len(ds))]', pre=['len(ds) > 0'], opaque=OP, at=M + 'generate_integrated_path')
S.eq('integrated path on the default dates', A, 'm = model(a, b, f, h)\nm.generate_integrated_path()\nreturn [s for s in m.integrated_path]', 'ds = raw(a, b, h)\nreturn [integral(f, ds, k) for k in range(len(ds))]', pre=['a < b', 'len(raw(a, b, h)) > 0'], opaque=OP, at=M + 'generate_integrated_path')
AK = A + ', c: datetime, d: datetime, e: datetime, g: datetime'
O4 = ['c < d', 'd < e', 'e < g']
I4 = 'i1 = (f(c) + f(d)) / 2 * tau(c, d)\ni2 = i1 + (f(d) + f(e)) / 2 * tau(d, e)\ni3 = i2 + (f(e) + f(g)) / 2 * tau(e, g)\n'
S.eq('integrated path on four dates', AK, 'm = model(a, b, f, h)\ny = m.generate_integrated_path([c, d, e, g])\nreturn [s for s in y]', I4 + 'return [0.0, i1, i2, i3]', pre=O4, opaque=OP, at=M + 'generate_integrated_path', wrong=I4 + 'return [0.0, i1, i2, i3 + i1]')
S.eq('discount curve on four dates', AK, 'm = model(a, b, f, h)\nx = m.create_discount_curve([c, d, e, g])\nreturn (knots(x), x.reference_date, m.discount_curve is x, x.index)', I4 + 'return ([(c, 1.0), (d, math.exp(-i1)), (e, math.exp(-i2)), (g, math.exp(-i3))], a, True, CurveIndex.NONE)', pre=O4, opaque=OP,
     at=M + 'create_discount_curve', wrong=I4 + 'return ([(c, 1.0), (d, math.exp(i1)), (e, math.exp(-i2)), (g, math.exp(-i3))], a, True, CurveIndex.NONE)')
S.eq('accrual curve on four dates', AK, 'm = model(a, b, f, h)\nx = m.accrual_curve([c, d, e, g])\nreturn (knots(x), x.reference_date)', I4 + 'return ([(c, 1.0), (d, math.exp(i1)), (e, math.exp(i2)), (g, math.exp(i3))], a)', pre=O4, opaque=OP, at=M + 'accrual_curve',
     wrong=I4 + 'return ([(c, 1.0), (d, math.exp(-i1)), (e, math.exp(i2)), (g, math.exp(i3))], a)')
S.eq('accrual and discounting are inverse', AK, 'm = model(a, b, f, h)\nx, y = m.accrual_curve([c, d, e, g]), m.create_discount_curve([c, d, e, g])\nreturn [p.value * q.value for p, q in zip(x.interpolation_values, y.interpolation_values)]', 'return [1.0, 1.0, 1.0, 1.0]', pre=O4, opaque=OP, at=M + 'create_discount_curve')
S.eq('the default dates of the discount curve', A, 'm = model(a, b, f, h)\nx = m.create_discount_curve()\nreturn [s for s in m.integrated_path]', 'ds = raw(a, b, h)\nreturn [integral(f, ds, k) for k in range(len(ds))]', pre=['a < b', 'len(raw(a, b, h)) > 0'], opaque=OP + ('Curve._create_interpolation_object',), at=M + 'create_discount_curve')
S.eq('the default dates of the accrual curve', A, 'm = model(a, b, f, h)\nx = m.accrual_curve()\nreturn [s for s in m.integrated_path]', 'ds = raw(a, b, h)\nreturn [integral(f, ds, k) for k in range(len(ds))]', pre=['a < b', 'len(raw(a, b, h)) > 0'], opaque=OP + ('Curve._create_interpolation_object',), at=M + 'accrual_curve',
     wrong='ds = raw(a, b, 2 * h)\nreturn [integral(f, ds, k) for k in range(len(ds))]')
for what, name in (('discount', 'create_discount_curve'), ('accrual', 'accrual_curve')):
    S.eq(f'the {what} curve is refused outside its dates', AK, f'm = model(a, b, f, h)\nx = m.{name}([c, d, e])\nreturn x(g)', 'raise ValueError()', pre=O4 + ['a <= c'], opaque=OP, at=M + name)
    S.eq(f'the {what} curve measures its dates as the model does', AK, f'm = model(a, b, f, h, DayCountConvention.ACTUAL_OVER_360)\nx = m.{name}([c, d, e])\nreturn (x.left_end_behavior, x.right_end_behavior, x.interpolation_method, x.interpolation_day_count_convention)',
         '(EndBehavior.ERROR, EndBehavior.ERROR, InterpolationMethod.LINEAR, DayCountConvention.ACTUAL_OVER_360)', pre=O4, opaque=OP, at=M + name)
S.eq('the index of the discount curve', AK, 'm = model(a, b, f, h)\nreturn m.create_discount_curve([c, d], CurveIndex.SOFR).index', 'CurveIndex.SOFR', pre=O4, opaque=OP, at=M + 'create_discount_curve')
S.eq('curves on dates of their own', AK, 'm = model(a, b, f, h)\nm.generate_integrated_path([c, d, e])\nx = m.create_discount_curve([e, g])\ny = m.accrual_curve([c, e])\nreturn (knots(x), knots(y))',
     'return ([(e, 1.0), (g, math.exp(-(f(e) + f(g)) / 2 * tau(e, g)))], [(c, 1.0), (e, math.exp((f(c) + f(e)) / 2 * tau(c, e)))])', pre=O4, opaque=OP, at=M + 'create_discount_curve')
for name in ('generate_integrated_path', 'accrual_curve', 'create_discount_curve'):
    S.eq(f'{name} before any path', A, f'ShortRateModel(lambda x: x[0], State(a, b, f, h)).{name}([a, b])', 'raise ValueError()', at=M + name)
# what is no longer valid is dropped
S.eq('a new path drops integral and discount curve', A, 'm = model(a, b, f, h)\nm.create_discount_curve([a, b])\nm.generate_path(1.0)\nreturn (m.integrated_path, m.discount_curve, [s for s in m.path])', '(None, None, [1.0, 1.0])', pre=['a < b'], at=M + '_reset_paths_and_curves')
S.eq('a new increment drops path, integral and discount curve', A + ', k: timedelta', 'm = model(a, b, f, h)\nm.create_discount_curve([a, b])\nm.set_dt(k)\nreturn (m.path, m.short_rate_path, m.integrated_path, m.discount_curve, m.dt, m.state_variables_diffusion_process.dt)', '(None, None, None, None, k, k)', pre=['a < b'], at=M + 'set_dt')
S.eq('what a model knows before any path', A, 'm = ShortRateModel(lambda x: x[0], State(a, b, f, h))\nreturn (m.path, m.short_rate_path, m.integrated_path, m.discount_curve, m.dt, m.start_date_time, m.end_date_time)', '(None, None, None, None, h, a, b)', at=M + '__init__')
S.eq('simulated with the new increment', G + ', k: timedelta', TWO + 'm.set_dt(k)\nm.generate_path(np.array([x0, y0]))\nreturn m.brownian_motion.asked[0]', 'k', at=M + 'set_dt')
S.eq('not read after a new increment', G + ', k: timedelta', TWO + 'm.generate_path(np.array([x0, y0]))\nm.set_dt(k)\nreturn m(c)', 'raise ValueError()', pre=ORD, at=M + 'set_dt')
S.eq('the state variables are not read after a new increment', G + ', k: timedelta', TWO + 'm.generate_path(np.array([x0, y0]))\nm.set_dt(k)\nreturn (m.state_variables_diffusion_process.path, m.state_variables_diffusion_process(c))', 'raise ValueError()', pre=ORD, at=M + 'set_dt')
S.eq('read after a new path with the new increment', G + ', k: timedelta', TWO + 'm.generate_path(np.array([y0, x0]))\nm.set_dt(k)\nm.generate_path(np.array([x0, y0]))\nreturn (m(a), m(c), m(b))', R + 'return (tr(x0, y0), tr(x1, y1), tr(x2, y2))', pre=ORD, at=M + 'set_dt')
