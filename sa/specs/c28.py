from ob import Spec
IMPORTS = '''
import numpy as np
from datetime import date, datetime, timedelta
from dateutil.relativedelta import relativedelta
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import MultivariateVasicekModel, CalibrationParamterType
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.doubly_mean_reverting_vasicek import DoublyMeanRevertingVasicek
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.trebly_mean_reverting_vasicek import TreblyMeanRevertingVasicek
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.stochastic_market_price_of_risk import StochasticMarketPriceOfRisk
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
'''
HELP = '''
AA = DayCountConvention.ACTUAL_OVER_ACTUAL
class Noise(BrownianMotion):
    """increments given in advance"""
    def __init__(self, a, c, b, dw, dt, dcc=AA):
        super().__init__(a, b, len(dw), day_count_convention=dcc)
        self.dw, self.dt, self.grid = dw, dt, [a, c, b]
    @property
    def datetimes(self):
        return self.grid
    @property
    def dt_increments(self):
        return np.array(self.dt)
    def generate_increments(self, dt, seed=None):
        return np.array(self.dw), np.array(self.dt)
class Asked(DoublyMeanRevertingVasicek):
    """keeps what its path was asked for"""
    asked = None
    def generate_path(self, starting_state_space_values, set_path=True, seed=None):
        self.asked = (starting_state_space_values[0], starting_state_space_values[1], set_path, seed)
def raw(a, b, h):
    return Scheduler.generate_dates_by_increments(start_date=a, end_date=b, increment=h, max_dates=1_000_000)
def cells(x, p, q):
    return tuple(tuple(x[i, j] for j in range(q)) for i in range(p))
def row(x, n):
    return tuple(x[i] for i in range(n))
def spread(m, n):
    """the covariance of the shocks"""
    return cells(m.volatility_matrix @ m.volatility_matrix.T, n, n)
def drifts(m, x):
    v = np.array(x)
    return tuple(p.drift(0.0, v) for p in m.drift_diffusion_collection.values())
def shocks(m, x, n):
    """the covariance of the diffusion terms"""
    v = np.array(x)
    r = [p.diffusion(0.0, v) for p in m.drift_diffusion_collection.values()]
    return tuple(tuple(sum(p[k] * q[k] for k in range(n)) for q in r) for p in r)
def cov(v, r):
    """volatilities and correlations"""
    return tuple(tuple(v[i] * v[j] * (1.0 if i == j else r[i + j - 1]) for j in range(len(v))) for i in range(len(v)))
'''
S = Spec('C28', IMPORTS, HELP)
OP = ('DayCountCalculator.compute_accrual_length', 'Scheduler.generate_dates_by_increments')
AB = 'a: datetime, b: datetime, h: timedelta'
DA = AB + ', kr: pos, sr: pos, L: num, kl: pos, sl: pos, rho: num'
DM = 'm = DoublyMeanRevertingVasicek(kr, sr, L, kl, sl, rho, a, b, h)\n'
TA = AB + ', kr: pos, sr: pos, km: pos, sm: pos, L: num, kl: pos, sl: pos, rm: num, rl: num, ml: num'
TM = 'm = TreblyMeanRevertingVasicek(kr, sr, km, sm, L, kl, sl, rm, rl, ml, a, b, h)\n'
PA = AB + ', kr: pos, sr: pos, km: pos, sm: pos, M: num, kp: pos, sp: pos, Q: num, rm: num, rp: num, mp: num'
PM = 'm = StochasticMarketPriceOfRisk(kr, sr, km, sm, M, kp, sp, Q, rm, rp, mp, a, b, h)\n'
X3 = ', l: num, q: num, r: num'
MODELS = {   # arguments, the model, number of states, drift of each, covariance, level
    'DoublyMeanRevertingVasicek': (DA, DM, 2, ('kl * (L - l)', 'kr * (l - r)'), 'cov((sl, sr), (rho,))' , '(L, L)', 'l, r', ['rho < 1', 'rho > -1']),
    'TreblyMeanRevertingVasicek': (TA, TM, 3, ('kl * (L - l)', 'km * (l - q)', 'kr * (q - r)'), 'cov((sl, sm, sr), (ml, rl, rm))', '(L, L, L)', 'l, q, r', []),
    'StochasticMarketPriceOfRisk': (PA, PM, 3, ('kp * (Q - l)', 'km * (M - q) + l * sm', 'kr * (q - r)'), 'cov((sp, sm, sr), (mp, rp, rm))', '(Q, M + sm * Q / km, M + sm * Q / km)', 'l, q, r', []),
}
for name, (args, make, n, drift, co, level, st, pre) in MODELS.items():
    at = name + '.__init__'
    PRE = ['a < b'] + pre
    S.eq(f'{name}: expected motion', args + X3, make + f'return drifts(m, [{st}])', f'({", ".join(drift)})', pre=PRE, at=at, wrong=f'({", ".join(drift[1:] + drift[:1])})')
    S.eq(f'{name}: where it reverts to', args, make + f'return row(m.reversion_level, {n})', level, pre=PRE, at=at)
    S.eq(f'{name}: reversion matrix', args + X3, make + f'v = m.reversion_matrix @ (m.reversion_level - np.array([{st}]))\nreturn row(v, {n})', f'({", ".join(drift)})', pre=PRE, at=at)
    S.eq(f'{name}: covariance of the shocks', args, make + f'return spread(m, {n})', co, pre=PRE, at=at)
    S.eq(f'{name}: diffusion terms', args + X3, make + f'return shocks(m, [{st}], {n})', co, pre=PRE, at=at)
    S.eq(f'{name}: the stated covariance', args, make + f'return cells(m.variance_mat, {n}, {n})', co, pre=PRE, at=at)
    S.eq(f'{name}: the short rate', args + X3, make + f'return m.short_rate_transformation(np.array([{st}]))', 'r', pre=PRE, at=at, wrong='l')
    S.eq(f'{name}: times', args, make + 'return (m.start_date_time, m.end_date_time, m.dt, m.dimension)', f'(a, b, h, {n})', pre=PRE, at=at)
    S.eq(f'{name}: default step', args, make.replace(', h)', ')') + 'return m.dt', 'relativedelta(hours=1)', pre=PRE, at=at)
    S.eq(f'{name}: before any path', args, make + 'return m(a)', 'raise ValueError()', pre=PRE, at=at)
    z = ', '.join(['[0.0]'] * n)
    S.eq(f'{name}: simulated states', args + X3 + ', c: datetime, i: num, u: num, v: num, w: num', make + f'm.state_variables_diffusion_process.brownian_motion = Noise(a, c, b, [[u, 0.0], [v, 0.0], [w, 0.0]][:{n}], [i, 0.0])\nL0 = m.volatility_matrix\nm.generate_path(np.array([{st}]))\np = m.state_variables_diffusion_process.path\nreturn (row(p[:, 0], {n}), row(p[:, 1] - L0 @ np.array([u, v, w][:{n}]), {n}), m.short_rate_path[0])',
         f's = ({st})\nd = ({", ".join(drift)})\nreturn (s, tuple(s[e] + d[e] * i for e in range({n})), r)', pre=PRE + ['a < c', 'c < b'], opaque=OP, at='ShortRateModel.generate_path')
# the calibration parameters
S.eq('doubly: parameters', DA, DM + 'd = m.parameter_calibration_dict\nreturn (list(d[CalibrationParamterType.VOLATILITY]), list(d[CalibrationParamterType.SHAPE]), len(d[CalibrationParamterType.STATE_VARIABLES]))', '([kl, sl, kr, sr, rho], [L], 2)', pre=['a < b'], at='DoublyMeanRevertingVasicek.__init__')
FV = 'd = {CalibrationParamterType.VOLATILITY: [kl, sl, kr, sr, rho], CalibrationParamterType.SHAPE: [L], CalibrationParamterType.STATE_VARIABLES: [l, r]}\n'
DX = DA + ', l: num, r: num'
F = 'DoublyMeanRevertingVasicek.from_volatility_shape_parameters'
G = ['a < b', 'rho < 1', 'rho > -1']
S.eq('doubly from parameters', DX, FV + 'm = Asked.from_volatility_shape_parameters(d, a, b, h)\nreturn (drifts(m, [l, r]), spread(m, 2), m.start_date_time, m.end_date_time, m.dt)', '((kl * (L - l), kr * (l - r)), cov((sl, sr), (rho,)), a, b, h)', pre=G, at=F, wrong='((kl * (L - l), kr * (l - r)), cov((sr, sl), (rho,)), a, b, h)')
S.eq('doubly from parameters: its path', DX + ', n: int', FV + 'return Asked.from_volatility_shape_parameters(d, a, b, h, seed=n).asked', '(l, r, True, n)', pre=G, at=F)
S.eq('doubly from parameters: default seed and step', DX, FV + 'm = Asked.from_volatility_shape_parameters(d, a, b)\nreturn (m.asked, m.dt)', '((l, r, True, 1), relativedelta(hours=1))', pre=G, at=F)
SET = ('d = m.parameter_calibration_dict\nd[CalibrationParamterType.VOLATILITY][0] = p\nd[CalibrationParamterType.VOLATILITY][1] = q\nd[CalibrationParamterType.VOLATILITY][2] = u\nd[CalibrationParamterType.VOLATILITY][3] = v\nd[CalibrationParamterType.VOLATILITY][4] = w\n')
S.eq('doubly: parameters read back', DA + ', p: num, q: num, u: num, v: num, w: num', DM + SET + 'm.set_volatiltiy_parameters_from_dict()\nreturn (m.long_term_reversion_speed, m.long_term_volatility, m.short_rate_reversion_speed, m.short_rate_volatility, m.short_rate_long_term_correlation)', '(p, q, u, v, w)', pre=['a < b'], at='DoublyMeanRevertingVasicek.set_volatiltiy_parameters_from_dict')
S.eq('doubly: shape read back', DA + ', p: num', DM + 'm.parameter_calibration_dict[CalibrationParamterType.SHAPE][0] = p\nm.set_shape_parameters_from_dict()\nreturn m.long_term_mean', 'p', pre=['a < b'], at='DoublyMeanRevertingVasicek.set_shape_parameters_from_dict')
S.eq('doubly: starting state read back', DA + ', p: num, q: num', DM + 'm.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES][:] = [p, q]\nm.set_state_variables_from_dict()\nreturn row(m.starting_state_variables, 2)', '(p, q)', pre=['a < b'], at='DoublyMeanRevertingVasicek.set_state_variables_from_dict')
# the general model
MA = 'a: datetime, c: datetime, b: datetime, mu: num, g1: num, g2: num, t1: num, t2: num, k1: num, k2: num, k3: num, s1: num, s2: num, s3: num, s4: num, x1: num, x2: num, u1: num, u2: num, v1: num, v2: num, i: num, j: num'
MM = 'm = MultivariateVasicekModel(mu, np.array([g1, g2]), np.array([t1, t2]), np.array([[k1, 0.0], [k3, k2]]), np.array([[s1, s4], [s3, s2]]), Noise(a, c, b, [[u1, u2], [v1, v2]], [i, j]))\nm.generate_path(np.array([x1, x2]))\n'
MP = 'p = x1 + k1 * (t1 - x1) * i + s1 * u1 + s4 * v1\nq = x2 + (k3 * (t1 - x1) + k2 * (t2 - x2)) * i + s3 * u1 + s2 * v1\nr = p + k1 * (t1 - p) * j + s1 * u2 + s4 * v2\ns = q + (k3 * (t1 - p) + k2 * (t2 - q)) * j + s3 * u2 + s2 * v2\n'
S.eq('simulated states', MA, MM + 'return cells(m.state_variables_diffusion_process.path, 2, 3)', MP + 'return ((x1, p, r), (x2, q, s))', pre=['a < c', 'c < b'], at='MultivariateVasicekModel.__init__', wrong=MP + 'return ((x1, p, r), (x2, q, q))')
S.eq('simulated short rates', MA, MM + 'return row(m.short_rate_path, 3)', MP + 'return (mu + g1 * x1 + g2 * x2, mu + g1 * p + g2 * q, mu + g1 * r + g2 * s)', pre=['a < c', 'c < b'], at='MultivariateVasicekModel.__init__')
S.eq('short rates at times', MA, MM + 'return (m(a), m(c), m(b))', MP + 'return (mu + g1 * x1 + g2 * x2, mu + g1 * p + g2 * q, mu + g1 * r + g2 * s)', pre=['a < c', 'c < b'], at='ShortRateModel.__call__')
S.eq('short rate between times', MA + ', e: datetime', MM + 'return m(e)', MP + 'f = DayCountCalculator.compute_accrual_length(a, e, AA) / (DayCountCalculator.compute_accrual_length(a, e, AA) + DayCountCalculator.compute_accrual_length(e, c, AA))\nreturn (mu + g1 * x1 + g2 * x2) * (1 - f) + (mu + g1 * p + g2 * q) * f', pre=['a < e', 'e < c', 'c < b'], opaque=OP[:1], at='ShortRateModel.__call__')
# dimensions that do not fit
for what, lv, km, vm in (('level', 'np.array([t1, t2])', 'np.array([[k1]])', 'np.array([[s1]])'), ('reversion', 'np.array([t1])', 'np.array([[k1, 0.0], [k2, k3]])', 'np.array([[s1]])'), ('volatility', 'np.array([t1])', 'np.array([[k1]])', 'np.array([[s1, 0.0], [s2, s3]])')):
    S.eq(f'{what} of the wrong size', 'a: datetime, b: datetime, mu: num, g: num, t1: num, t2: num, k1: pos, k2: pos, k3: pos, s1: pos, s2: pos, s3: pos', f'return MultivariateVasicekModel(mu, np.array([g]), {lv}, {km}, {vm}, BrownianMotion(a, b, 1)).start_date_time', 'raise AssertionError()', pre=['a < b'], at='MultivariateVasicekModel.__init__')
