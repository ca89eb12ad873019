from ob import Spec
IMPORTS = '''
import math
import numpy as np
from scipy.optimize import minimize
from datetime import date, datetime, timedelta
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import CalibrationParamterType
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.doubly_mean_reverting_vasicek import DoublyMeanRevertingVasicek
from fixedIncome.src.stochastics.calibrators.factorized_calibrator import VolatilityFactorizedCalibrator, CalibrationInput
'''
HELP = '''
VOL = CalibrationParamterType.VOLATILITY
SHAPE = CalibrationParamterType.SHAPE
STATE = CalibrationParamterType.STATE_VARIABLES
def built(v, s, x, a, b, h):
    return DoublyMeanRevertingVasicek.from_volatility_shape_parameters({VOL: list(v), SHAPE: list(s), STATE: list(x)}, start_datetime=a, end_datetime=b, dt=h)
def given(kr, sr, L, kl, sl, rho, a, b, h, l, r):
    m = DoublyMeanRevertingVasicek(kr, sr, L, kl, sl, rho, a, b, h)
    m.parameter_calibration_dict[STATE][:] = [l, r]
    return m
def inputs(ds, vs):
    return [CalibrationInput(maturity_date=d, value=v) for d, v in zip(ds, vs)]
def row(x, n):
    return tuple(x[i] for i in range(n))
def vols(ds, vs, s, x, a, b, h):
    """the volatility parameters that fit"""
    return row(minimize(fun=lambda p: sum((built(p, s, x, a, b, h).yield_volatility(d) - v) ** 2 for d, v in zip(ds, vs)), x0=[0.0] * 5, bounds=[(0.0, 1.0)] * 5).x, 5)
def shapes(ds, vs, w, a, b, h):
    """level and starting state that fit, volatility parameters held"""
    return row(minimize(fun=lambda p: sum((built(w, [p[0]], [p[1], p[2]], a, b, h).zero_coupon_bond_price(d) - v) ** 2 for d, v in zip(ds, vs)), x0=[0.0] * 3, bounds=[(0.0, 1.0)] * 3).x, 3)
def known(m):
    p = m.parameter_calibration_dict
    return (list(p[VOL]), list(p[SHAPE]), list(p[STATE]))
'''
S = Spec('C35', IMPORTS, HELP)
OP = ('DayCountCalculator.compute_accrual_length', 'ShortRateModel.generate_path', 'MultivariateVasicekModel.yield_volatility', 'MultivariateVasicekModel.zero_coupon_bond_price', 'MultivariateVasicekModel.generate_path', 'DoublyMeanRevertingVasicek.generate_path')
C = 'VolatilityFactorizedCalibrator.'
A = 'a: datetime, b: datetime, h: timedelta, kr: pos, sr: pos, L: num, kl: pos, sl: pos, rho: num, l: num, r: num'
M = 'm = given(kr, sr, L, kl, sl, rho, a, b, h, l, r)\n'
PRE = ['a < b', 'rho < 1', 'rho > -1']
for n in (1, 2, 3):
    D = ', '.join(f'd{i}: datetime, v{i}: num' for i in range(n))
    DS, VS = '[' + ', '.join(f'd{i}' for i in range(n)) + ']', '[' + ', '.join(f'v{i}' for i in range(n)) + ']'
    ORD = PRE + ['a < d0'] + [f'd{i} < d{i+1}' for i in range(n - 1)] + [f'd{n-1} < b']
    S.eq(f'volatility parameters from {n}', f'{A}, {D}', M + f'x = VolatilityFactorizedCalibrator(inputs({DS}, {VS}), []).calibrate_volatility_parameters(m)\nreturn (row(x.x, 5), known(m))',
         f'w = vols({DS}, {VS}, [L], [l, r], a, b, h)\nreturn (w, (list(w), [L], [l, r]))', pre=ORD, opaque=OP, at=C + 'calibrate_volatility_parameters')
    S.eq(f'shape and state from {n}', f'{A}, {D}', M + f'x = VolatilityFactorizedCalibrator([], inputs({DS}, {VS})).calibrate_shape_state_variable_parameters(m)\nreturn (row(x.x, 3), known(m))',
         f'w = shapes({DS}, {VS}, [kl, sl, kr, sr, rho], a, b, h)\nreturn (w, ([kl, sl, kr, sr, rho], [w[0]], [w[1], w[2]]))', pre=ORD, opaque=OP, at=C + 'calibrate_shape_state_variable_parameters')
    S.eq(f'both from {n}', f'{A}, {D}, ' + ', '.join(f'e{i}: datetime, w{i}: num' for i in range(n)),
         M + f'c = VolatilityFactorizedCalibrator(inputs({DS}, {VS}), inputs({DS.replace("d", "e")}, {VS.replace("v", "w")})).calibrate(m)\nreturn (known(c), c.start_date_time, c.end_date_time, c.dt, list(m.parameter_calibration_dict[VOL]))',
         f'q = vols({DS}, {VS}, [L], [l, r], a, b, h)\nz = shapes({DS.replace("d", "e")}, {VS.replace("v", "w")}, q, a, b, h)\nreturn ((list(q), [z[0]], [z[1], z[2]]), a, b, h, list(q))',
         pre=ORD + ['a < e0'] + [f'e{i} < e{i+1}' for i in range(n - 1)] + [f'e{n-1} < b'], opaque=OP, at=C + 'calibrate')
I2 = 'p: datetime, q: datetime, r: datetime, x: num, y: num, z: num'
for side, args in (('volatility', 'inputs([p, q, r], [x, y, z]), []'), ('price', '[], inputs([p, q, r], [x, y, z])')):
    S.eq(f'{side} inputs by maturity', I2, f'return [(i.maturity_date, i.value) for i in VolatilityFactorizedCalibrator({args}).{side}_inputs]', 'return sorted([(p, x), (q, y), (r, z)], key=lambda i: i[0])', pre=['q < r', 'p < r'], at=C + '__init__')
    S.eq(f'{side} inputs given once', I2, f'return [(i.maturity_date, i.value) for i in VolatilityFactorizedCalibrator({args.replace("inputs([p, q, r], [x, y, z])", "(CalibrationInput(d, v) for d, v in zip([p, q, r], [x, y, z]))")}).{side}_inputs]', 'return [(p, x), (q, y), (r, z)]', pre=['p < q', 'q < r'], at=C + '__init__')
F = 'DoublyMeanRevertingVasicek.from_volatility_shape_parameters'
B = 'd = {VOL: [kl, sl, kr, sr, rho], SHAPE: [L], STATE: [l, r]}\nm = DoublyMeanRevertingVasicek.from_volatility_shape_parameters(d, a, b, h)\n'
S.eq('parameters kept', A, B + 'return (known(m), row(m.starting_state_variables, 2))', '(([kl, sl, kr, sr, rho], [L], [l, r]), (l, r))', pre=PRE, opaque=OP, at=F)
S.eq('parameters of its own', A + ', z: num', B + 'd[VOL][0] = z\nd[SHAPE][0] = z\nd[STATE][0] = z\nreturn known(m)', '([kl, sl, kr, sr, rho], [L], [l, r])', pre=PRE, opaque=OP, at=F)
S.eq('other parameters untouched', A, B + 'return (d[VOL], d[SHAPE], d[STATE])', '([kl, sl, kr, sr, rho], [L], [l, r])', pre=PRE, opaque=OP, at=F)
