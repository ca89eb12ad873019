from ob import Spec
IMPORTS = '''
import numpy as np
import math
from datetime import date, datetime, timedelta
from dateutil.relativedelta import relativedelta
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import MultivariateVasicekModel
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
'''
HELP = '''
AA = DayCountConvention.ACTUAL_OVER_ACTUAL
class Noise(BrownianMotion):
    """increments given in advance"""
    def __init__(self, a, c, b, dw, dt, dcc=AA):
        super().__init__(a, b, len(dw), day_count_convention=dcc)
        self.dw, self.dt, self.grid = dw, dt, [a, c, b]
    @property
    def datetimes(self):
        return self.grid
    @property
    def dt_increments(self):
        return np.array(self.dt)
    def generate_increments(self, dt, seed=None):
        return np.array(self.dw), np.array(self.dt)
def tau(a, b, dcc=AA):
    return DayCountCalculator.compute_accrual_length(a, b, dcc)
def model(a, c, b, mu, g1, g2, th1, th2, k1, k2, k3, s1, s2, s3, x1, x2, y1, y2, dcc=AA):
    """state (x1, x2) at the start and (y1, y2) at the middle of the simulated times"""
    u = (y1 - x1) / s1
    v = (y2 - x2 - s3 * u) / s2
    m = MultivariateVasicekModel(mu, np.array([g1, g2]), np.array([th1, th2]), np.array([[k1, 0.0], [k3, k2]]), np.array([[s1, 0.0], [s3, s2]]), Noise(a, c, b, [[u, 0.0], [v, 0.0]], [0.0, 1.0], dcc))
    m.generate_path(np.array([x1, x2]))
    return m
def single(a, c, b, mu, g, th, k, s, x, y, dcc=AA):
    """one state variable: x at the start and y at the middle of the simulated times"""
    m = MultivariateVasicekModel(mu, np.array([g]), np.array([th]), np.array([[k]]), np.array([[s]]), Noise(a, c, b, [[(y - x) / s, 0.0]], [0.0, 1.0], dcc))
    m.generate_path(np.array([x]))
    return m
def E(k, t):
    return math.exp(-k * t)
def N(k, t):
    return (1 - E(k, t)) / k
def J(k, l, t):
    """the integral of exp(-(k + l) s) up to t"""
    return (1 - E(k, t) * E(l, t)) / (k + l)
def NN(k, l, t):
    """the integral of N(k, s) N(l, s) up to t"""
    return (t - N(k, t) - N(l, t) + J(k, l, t)) / (k * l)
def IN(k, t):
    return (t - N(k, t)) / k
def mean(th1, th2, k1, k2, k3, x1, x2, t):
    h = k3 / (k1 - k2)
    return th1 + E(k1, t) * (x1 - th1), th2 + h * (E(k1, t) - E(k2, t)) * (x1 - th1) + E(k2, t) * (x2 - th2)
def slope(g1, g2, k1, k2, k3, t):
    """the sensitivity of the log price to the state"""
    h = k3 / (k1 - k2)
    return -(g1 + g2 * h) * N(k1, t) + g2 * h * N(k2, t), -g2 * N(k2, t)
def drop(g1, g2, k1, k2, k3, t):
    """the derivative of the slope in the time to maturity"""
    h = k3 / (k1 - k2)
    return -(g1 + g2 * h) * E(k1, t) + g2 * h * E(k2, t), -g2 * E(k2, t)
def quad(u, v, s1, s2, s3):
    """the covariance of two linear functions of the shocks"""
    return u[0] * v[0] * s1 * s1 + (u[0] * v[1] + u[1] * v[0]) * s1 * s3 + u[1] * v[1] * (s3 * s3 + s2 * s2)
def level(mu, g1, g2, th1, th2, k1, k2, k3, s1, s2, s3, t):
    """the log price when the state is zero"""
    h = k3 / (k1 - k2)
    p, q = g1 + g2 * h, -g2 * h
    w1, w2 = k1 * th1, k3 * th1 + k2 * th2
    drift = -w1 * (p * IN(k1, t) + q * IN(k2, t)) - w2 * g2 * IN(k2, t)
    n11, n12, n22 = NN(k1, k1, t), NN(k1, k2, t), NN(k2, k2, t)
    var = s1 * s1 * (p * p * n11 + 2 * p * q * n12 + q * q * n22) + 2 * s1 * s3 * g2 * (p * n12 + q * n22) + (s3 * s3 + s2 * s2) * g2 * g2 * n22
    return -mu * t + drift + var / 2
def tilt(mu, g1, g2, th1, th2, k1, k2, k3, s1, s2, s3, t):
    """its derivative in the time to maturity"""
    b = slope(g1, g2, k1, k2, k3, t)
    return -mu + b[0] * k1 * th1 + b[1] * (k3 * th1 + k2 * th2) + quad(b, b, s1, s2, s3) / 2
'''
S = Spec('C29', IMPORTS, HELP)
OP = ('DayCountCalculator.compute_accrual_length',)
A = 'a: datetime, c: datetime, b: datetime, T: datetime, mu: num, g1: num, g2: num, th1: num, th2: num, k1: pos, k2: pos, k3: num, s1: pos, s2: pos, s3: num, x1: num, x2: num, y1: num, y2: num'
O = ['a < c', 'c < b', 'b < T', 'k1 != k2']
V = 'MultivariateVasicekModel.'
M = 'm = model(a, c, b, mu, g1, g2, th1, th2, k1, k2, k3, s1, s2, s3, x1, x2, y1, y2{d})\n'
FROM = (('the start', 'T', 'a', 'x1', 'x2'), ('a later purchase date', 'T, c', 'c', 'y1', 'y2'))
DCC = ('ACTUAL_OVER_360', 'ACTUAL_OVER_365')
K = 'k1, k2, k3'
MEAN = 'e = mean(th1, th2, k1, k2, k3, {x}, {y}, t)\n'
P0 = 'b = slope(g1, g2, k1, k2, k3, t)\np = level(mu, g1, g2, th1, th2, k1, k2, k3, s1, s2, s3, t) + b[0] * {x} + b[1] * {y}\n'
D0 = 'd = drop(g1, g2, k1, k2, k3, t)\nf = -tilt(mu, g1, g2, th1, th2, k1, k2, k3, s1, s2, s3, t) - d[0] * {x} - d[1] * {y}\n'
COV = """h = k3 / (k1 - k2)
r1, r2, r3 = s1 * s1, s3 * s3 + s2 * s2, s1 * s3
j1, j2, j3 = J(k1, k1, t), J(k2, k2, t), J(k1, k2, t)
v1 = r1 * j1
v3 = h * r1 * (j1 - j3) + r3 * j3
v2 = h * h * r1 * (j1 - 2 * j3 + j2) + 2 * h * r3 * (j3 - j2) + r2 * j2
"""
FORMS = {   # what is called, what it is, a mistake
    'expected_state_variable_mean': ('v = m.{f}({z})\nreturn (v[0], v[1])', MEAN + 'return (e[0], e[1])', MEAN + 'return (e[1], e[0])'),
    'expected_short_rate': ('return m.{f}({z})', MEAN + 'return mu + g1 * e[0] + g2 * e[1]', MEAN + 'return g1 * e[0] + g2 * e[1]'),
    'average_expected_short_rate': ('return m.{f}({z})', 'b = slope(g1, g2, k1, k2, k3, t)\nreturn mu + g1 * th1 + g2 * th2 - (b[0] * ({x} - th1) + b[1] * ({y} - th2)) / t', None),
    'state_variable_covariance': ('v = m.{f}({z})\nreturn (v[0, 0], v[0, 1], v[1, 0], v[1, 1])', COV + 'return (v1, v3, v3, v2)', COV + 'return (v1, v3, v3, v1)'),
    'short_rate_variance': ('return m.{f}({z})', COV + 'return g1 * g1 * v1 + 2 * g1 * g2 * v3 + g2 * g2 * v2', None),
    'zero_coupon_bond_price': ('return math.log(m.{f}({z}))', P0 + 'return p', P0 + 'return p + b[0] * t'),
    'zero_coupon_bond_price_deriv_wrt_state_variables': ('v = m.{f}({z})\np = m.zero_coupon_bond_price({z})\nreturn (v[0] / p, v[1] / p)', P0 + 'return (b[0], b[1])', P0 + 'return (b[1], b[0])'),
    'zero_coupon_bond_yield': ('return m.{f}({z})', P0 + 'return -p / t', P0 + 'return -p'),
    'yield_convexity': ('return m.{f}({z}) + m.average_expected_short_rate({z})', P0 + 'return -p / t', None),
    'yield_volatility': ('return m.{f}({z})', P0 + 'return math.sqrt(quad(b, b, s1, s2, s3)) / t', P0 + 'return math.sqrt(quad(b, b, s1, s2, s3))'),
    'instantaneous_forward_rate': ('return m.{f}({z})', D0 + 'return f', None),
    'instantaneous_forward_rate_volatility': ('return m.{f}({z})', D0 + 'return math.sqrt(quad(d, d, s1, s2, s3))', None),
    'zero_coupon_price_deriv_wrt_maturity': ('return m.{f}({z}) / m.zero_coupon_bond_price({z})', D0 + 'return -f', None),
}
for f, (call, ref, bad) in FORMS.items():
    for w, z, start, x, y in FROM:
        R = lambda text, d='': f't = tau({start}, T{d})\n' + text.format(x=x, y=y)
        S.eq(f'{f} from {w}', A, M.format(d='') + call.format(f=f, z=z), R(ref), pre=O + [f'tau({start}, T) > 0'], opaque=OP, at=V + f, **({'wrong': R(bad)} if bad else {}))
    for dcc in DCC:
        d = f', DayCountConvention.{dcc}'
        S.eq(f'{f} under {dcc}', A, M.format(d=d) + call.format(f=f, z=z), R(ref, d), pre=O + [f'tau(c, T{d}) > 0'], opaque=OP, at=V + f)

A2 = A + ', U: datetime'
CC = 'one = slope(g1, g2, k1, k2, k3, tau({p}, T))\ntwo = slope(g1, g2, k1, k2, k3, tau({p}, U))\nt, u = tau({p}, T), tau({p}, U)\n'
FD = CC.replace('slope', 'drop')
CALLS = {
    'yield_covariance_matrix': (CC + 'r = quad(one, two, s1, s2, s3) / t / u\nreturn (quad(one, one, s1, s2, s3) / t / t, r, r, quad(two, two, s1, s2, s3) / u / u)', CC + 'r = quad(one, two, s1, s2, s3) / t / t\nreturn (quad(one, one, s1, s2, s3) / t / t, r, r, quad(two, two, s1, s2, s3) / u / u)'),
    'instantaneous_forward_rate_covariance': (FD + 'r = quad(one, two, s1, s2, s3)\nreturn (quad(one, one, s1, s2, s3), r, r, quad(two, two, s1, s2, s3))', None),
}
for f, (ref, bad) in CALLS.items():
    for w, p, z, it in (('from the start', 'a', '', '[T, U]'), ('from a later purchase date', 'c', ', c', '[T, U]'), ('of an iterator of maturities', 'c', ', c', 'iter([T, U])')):
        S.eq(f'{f} {w}', A2, M.format(d='') + f'v = m.{f}({it}{z})\nreturn (v[0, 0], v[0, 1], v[1, 0], v[1, 1])', ref.format(p=p), pre=O + [f'{p} < U', f'tau({p}, T) > 0', f'tau({p}, U) > 0'], opaque=OP, at=V + f, **({'wrong': bad.format(p=p)} if bad else {}))
for w, p, z in (('from the start', 'a', ''), ('from a later purchase date', 'c', ', c')):
    S.eq(f'price_convexities {w}', A2, M.format(d='') + f'v = m.price_convexities([T, U]{z})\nreturn (v[0] / m.zero_coupon_bond_price(T{z}), v[1] / m.zero_coupon_bond_price(U{z}))', CC.format(p=p) + 'return (-quad(one, one, s1, s2, s3) / 2, -quad(two, two, s1, s2, s3) / 2)',
         pre=O + [f'{p} < U', f'tau({p}, T) > 0', f'tau({p}, U) > 0'], opaque=OP, at=V + 'price_convexities')
for f, arg in (('zero_coupon_bond_yield', 'T'), ('yield_convexity', 'T'), ('average_expected_short_rate', 'T'), ('yield_volatility', 'T'), ('price_convexities', '[U, T]'), ('instantaneous_forward_rate_covariance', '[U, T]'), ('instantaneous_forward_rate_volatility', 'T')):
    S.eq(f'{f} of a matured bond', A2, M.format(d='') + f'return m.{f}({arg}, c)', 'raise ValueError()', pre=['a < c', 'c < b', 'k1 != k2', 'T <= c'], opaque=OP, at=V + f)

A3 = A2 + ', W: datetime'
W3 = 'd = [m.zero_coupon_bond_price_deriv_wrt_state_variables(x, c) for x in (T, U, W)]\n'
S.eq('weights of a riskless portfolio of three bonds', A3, M.format(d='') + 'w = m.weights_for_riskless_portfolio([T, U, W], c)\n' + W3 + 'return (w[0] + w[1] + w[2], sum(w[i] * d[i][0] for i in range(3)), sum(w[i] * d[i][1] for i in range(3)))', '(1.0, 0.0, 0.0)', pre=O, opaque=OP, at=V + 'weights_for_riskless_portfolio', tier='thorough')

A1 = 'a: datetime, c: datetime, b: datetime, T: datetime, U: datetime, mu: num, g: num, th: num, k: pos, s: pos, x: num, y: num'
M1 = 'm = single(a, c, b, mu, g, th, k, s, x, y)\n'
for w, z in (('from the start', ''), ('from a later purchase date', ', c')):
    for it in ('[T, U]', 'iter([T, U])'):
        S.eq(f'weights of a riskless portfolio {w}' + (' of an iterator' if 'iter' in it else ''), A1, M1 + f'w = m.weights_for_riskless_portfolio({it}{z})\nd, e = m.zero_coupon_bond_price_deriv_wrt_state_variables(T{z})[0], m.zero_coupon_bond_price_deriv_wrt_state_variables(U{z})[0]\nreturn (w[0] + w[1], w[0] * d + w[1] * e)', '(1.0, 0.0)', pre=O[:-1], opaque=OP, at=V + 'weights_for_riskless_portfolio', wrong='(1.0, 1.0)')
    for it in ('[T, U]', 'iter([T, U])'):
        S.eq(f'convexity of a riskless portfolio {w}' + (' of an iterator' if 'iter' in it else ''), A1, M1 + f'return m.riskless_portfolio_convexity({it}{z})', M1 + f'w = m.weights_for_riskless_portfolio([T, U]{z})\nB = [-g * N(k, tau({"c" if z else "a"}, d)) for d in (T, U)]\nP = [m.zero_coupon_bond_price(d{z}) for d in (T, U)]\nreturn s * s / 2 * sum(P[i] * w[i] * B[i] ** 2 for i in range(2))', pre=O[:-1], opaque=OP, at=V + 'riskless_portfolio_convexity')
