from ob import Spec
IMPORTS = '''
import numpy as np
import math
from datetime import date, datetime, timedelta
from dateutil.relativedelta import relativedelta
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import VasicekModel, CalibrationParamterType, vasicek_drift_diffusion
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
'''
HELP = '''
AA = DayCountConvention.ACTUAL_OVER_ACTUAL
class Noise(BrownianMotion):
    """increments given in advance"""
    def __init__(self, a, c, b, dw, dt, dcc=AA):
        super().__init__(a, b, day_count_convention=dcc)
        self.dw, self.dt, self.grid = dw, dt, [a, c, b]
    @property
    def datetimes(self):
        return self.grid
    @property
    def dt_increments(self):
        return np.array(self.dt)
    def generate_increments(self, dt, seed=None):
        return np.array([self.dw]), np.array(self.dt)
def tau(a, b, dcc=AA):
    return DayCountCalculator.compute_accrual_length(a, b, dcc)
def bare(a, c, b, s, k, th, dcc=AA):
    return VasicekModel(th, k, s, Noise(a, c, b, [0.0, 0.0], [1.0, 1.0], dcc))
def model(a, c, b, r, q, s, k, th, dcc=AA):
    """short rate r at the start and q at the middle of the simulated times"""
    u = (q - r - k * (th - r)) / s
    m = VasicekModel(th, k, s, Noise(a, c, b, [u, 0.0], [1.0, 1.0], dcc))
    m.generate_path(r)
    return m
def B(k, t):
    return (1 - math.exp(-k * t)) / k
def lnp(r, s, k, th, t):
    return (th - s * s / (2 * k * k)) * (B(k, t) - t) - s * s * B(k, t) * B(k, t) / (4 * k) - B(k, t) * r
def mean(r, k, th, t):
    return r * math.exp(-k * t) + th * (1 - math.exp(-k * t))
'''
S = Spec('C27', IMPORTS, HELP)
OP = ('DayCountCalculator.compute_accrual_length',)
A = 'a: datetime, c: datetime, b: datetime, T: datetime, r: num, q: num, s: pos, k: pos, th: num'
O = ['a < c', 'c < b', 'b < T']
V = 'VasicekModel.'
M = 'm = model(a, c, b, r, q, s, k, th)\n'
DCC = ('ACTUAL_OVER_360', 'ACTUAL_OVER_365')
FORMS = {
    'zero_coupon_bond_price': ('math.exp(lnp({r}, s, k, th, t))', 'math.exp(lnp({r}, s, k, th, t) + s * t)'),
    'zero_coupon_yield': ('-lnp({r}, s, k, th, t) / t', '-lnp({r}, s, k, th, t)'),
    'zero_coupon_bond_yield': ('-lnp({r}, s, k, th, t) / t', None),
    'short_rate_variance': ('s * s * (1 - math.exp(-2 * k * t)) / (2 * k)', 's * s * (1 - math.exp(-k * t)) / (2 * k)'),
    'expected_short_rate': ('mean({r}, k, th, t)', 'mean(th, k, {r}, t)'),
    'average_expected_short_rate': ('th + ({r} - th) * B(k, t) / t', 'th + ({r} - th) * B(k, t)'),
    'instantaneous_forward_rate': ('mean({r}, k, th, t) - s * s * B(k, t) * B(k, t) / 2', 'mean({r}, k, th, t)'),
    'instantaneous_forward_rate_volatility': ('s * math.exp(-k * t)', None),
    'yield_volatility': ('s * B(k, t) / t', 's * B(k, t)'),
}
for name, (ref, bad) in FORMS.items():
    def R(text, start, r, dcc=''):
        return f't = tau({start}, T{dcc})\nreturn ' + text.format(r=r)
    S.eq(f'{name} from the start', A, M + f'return m.{name}(T)', R(ref, 'a', 'r'), pre=O + ['tau(a, T) > 0'], opaque=OP, at=V + name, **({'wrong': R(bad, 'a', 'r')} if bad else {}))
    S.eq(f'{name} from a later purchase date', A, M + f'return m.{name}(T, c)', R(ref, 'c', 'q'), pre=O + ['tau(c, T) > 0'], opaque=OP, at=V + name, wrong=R(ref, 'a', 'q'))
    for dcc in DCC:
        d = f', DayCountConvention.{dcc}'
        S.eq(f'{name} from a later purchase date under {dcc}', A, f'm = model(a, c, b, r, q, s, k, th{d})\nreturn m.{name}(T, c)', R(ref, 'c', 'q', d), pre=O + [f'tau(c, T{d}) > 0'], opaque=OP, at=V + name)
S.eq('prices and yields agree', A, M + 'return m.zero_coupon_bond_price(T, c)', M + 'return math.exp(-m.zero_coupon_yield(T, c) * tau(c, T))', pre=O + ['tau(c, T) > 0'], opaque=OP, at=V + 'zero_coupon_yield')
S.eq('the yield is the average expected rate less its convexity', A, M + 'return m.average_expected_short_rate(T) + m.yield_convexity(T)', M + 'return m.zero_coupon_yield(T)', pre=O + ['tau(a, T) > 0'], opaque=OP, at=V + 'yield_convexity')
CV = 't = tau(a, T)\nreturn s * s / t * ((B(k, t) - t) / (2 * k * k) + B(k, t) ** 2 / (4 * k))'
S.eq('yield convexity', A, M + 'return m.yield_convexity(T)', CV, pre=O + ['tau(a, T) > 0'], opaque=OP, at=V + 'yield_convexity', wrong=CV.replace('(4 * k)', '(2 * k)'))
S.eq('convexity of the yield at infinity', A, M + 'return m.convexity_limit', '-s * s / (2 * k * k)', at=V + 'convexity_limit')
A2 = A + ', U: datetime'
PC = 'def one(d):\n    t = tau({p}, d)\n    return 0.5 * s * s * B(k, t) ** 2 * math.exp(lnp({r}, s, k, th, t))\nreturn [-one(T), -one(U)]'
S.eq('price convexities from the start', A2, M + 'return [x for x in m.price_convexities([T, U])]', PC.format(p='a', r='r'), pre=O + ['a < U', 'tau(a, T) > 0', 'tau(a, U) > 0'], opaque=OP, at=V + 'price_convexities')
S.eq('price convexities from a later purchase date', A2, M + 'return [x for x in m.price_convexities([T, U], c)]', PC.format(p='c', r='q'), pre=O + ['c < U', 'tau(c, T) > 0', 'tau(c, U) > 0'], opaque=OP, at=V + 'price_convexities', wrong=PC.format(p='a', r='q'))
S.eq('price convexities of the maturities of an iterator', A2, M + 'return [x for x in m.price_convexities(iter([T, U]), c)]', PC.format(p='c', r='q'), pre=O + ['c < U', 'tau(c, T) > 0', 'tau(c, U) > 0'], opaque=OP, at=V + 'price_convexities')
S.eq('price convexities at the purchase date', A2, M + 'return m.price_convexities([T, U], c)', 'raise ValueError()', pre=O + ['U <= c'], opaque=OP, at=V + 'price_convexities')
for name in ('zero_coupon_bond_price', 'zero_coupon_yield', 'expected_short_rate', 'average_expected_short_rate', 'instantaneous_forward_rate'):
    S.eq(f'{name} before any path', A, f'return bare(a, c, b, s, k, th).{name}(T)', 'raise ValueError()', pre=O + ['tau(a, T) > 0'], opaque=OP, at=V + name)
S.eq('the forward rate at the purchase date is the short rate', A, M + 'return m.instantaneous_forward_rate(c, c)', 'return q', pre=O + ['tau(c, c) == 0'], opaque=OP, at=V + 'instantaneous_forward_rate')
S.eq('the price at maturity is one', A, M + 'return m.zero_coupon_bond_price(c, c)', 'return 1.0', pre=O + ['tau(c, c) == 0'], opaque=OP, at=V + 'zero_coupon_bond_price')
# dynamics
S.eq('drift and volatility', 's: num, k: num, th: num, t: num, x: num', 'p = vasicek_drift_diffusion(th, k, s)\nreturn (p.drift(t, x)[0], p.diffusion(t, x)[0])', '(k * (th - x), s)', at='vasicek_drift_diffusion', wrong='(k * (x - th), s)')
G = A + ', i: pos, j: pos, u: num, v: num'
SIM = 'm = VasicekModel(th, k, s, Noise(a, c, b, [u, v], [i, j]))\n'
PATH = 'x = r + k * (th - r) * i + s * u\ny = x + k * (th - x) * j + s * v\n'
S.eq('simulated path', G, SIM + 'return [x for x in m.generate_path(r)]', PATH + 'return [r, x, y]', pre=O, at=V + '__init__', wrong=PATH + 'return [r, x, x]')
S.eq('the short rate of a simulated path', G, SIM + 'm.generate_path(r)\nreturn (m(a), m(c), m(b))', PATH + 'return (r, x, y)', pre=O, at=V + '__init__')
S.eq('prices from a simulated path', G, SIM + 'm.generate_path(r)\nreturn m.zero_coupon_bond_price(T, c)', PATH + 'return math.exp(lnp(x, s, k, th, tau(c, T)))', pre=O + ['tau(c, T) > 0'], opaque=OP, at=V + 'zero_coupon_bond_price')
S.eq('what a model knows', G, SIM + 'd = m.parameter_calibration_dict\nreturn (m.long_term_mean, m.reversion_speed, m.volatility, m.start_date_time, m.end_date_time, m.dt, list(d[CalibrationParamterType.VOLATILITY]), list(d[CalibrationParamterType.SHAPE]))',
     '(th, k, s, a, b, relativedelta(hours=1), [s, k], [th])', pre=O, at=V + '__init__')
# parameters taken from the calibration dictionary
N = A + ', s2: pos, k2: pos, th2: num'
SET = ('d = m.parameter_calibration_dict\nd[CalibrationParamterType.VOLATILITY][0] = s2\nd[CalibrationParamterType.VOLATILITY][1] = k2\nd[CalibrationParamterType.SHAPE][0] = th2\n'
       'm.set_volatiltiy_parameters_from_dict()\nm.set_shape_parameters_from_dict()\n')
for name in ('zero_coupon_bond_price', 'zero_coupon_yield', 'yield_volatility', 'expected_short_rate'):
    S.eq(f'{name} after calibration', N, M + SET + f'return m.{name}(T, c)', 's, k, th = s2, k2, th2\nt = tau(c, T)\nreturn ' + FORMS[name][0].format(r='q'), pre=O + ['tau(c, T) > 0'], opaque=OP, at=V + 'set_volatiltiy_parameters_from_dict')
S.eq('simulated path after calibration', G + ', s2: pos, k2: pos, th2: num', SIM + SET + 'return [x for x in m.generate_path(r)]', 's, k, th = s2, k2, th2\n' + PATH + 'return [r, x, y]', pre=O, at=V + 'set_volatiltiy_parameters_from_dict')
S.eq('the calibrated starting short rate', N, M + 'm.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES][0] = th2\nm.set_state_variables_from_dict()\nreturn m.calibrated_starting_short_rate', 'th2', pre=O, at=V + 'set_state_variables_from_dict')
