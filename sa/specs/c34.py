from ob import Spec
IMPORTS = '''
import math
import numpy as np
from fixedIncome.src.curves.credit_curves.default_models import default_bernoulli_paths
'''
HELP = '''
def simulate(h, steps, maturity, dt, paths):
    """as many paths as asked for, looked at in the given number of steps of dt before maturity"""
    out = []
    for i in range(paths):
        when = math.nan
        for k in range(1, steps + 1):
            if np.random.uniform() <= h(k * dt) * dt:
                when = k * dt
                break
        out.append(when)
    return out
def times(x, n):
    return [x[i] for i in range(n)]
'''
S = Spec('C34', IMPORTS, HELP)
A = 'default_bernoulli_paths'
for dt, t, steps in (('0.5', '0.75', 1), ('1.0', '2.0', 1), ('0.25', '0.6', 2), ('1.0', '3.0', 2), ('2.0', '7.0', 3), ('1.0', '1.0', 0)):
    for n in (1, 2, 3):
        if steps + n > 4:
            continue
        S.eq(f'{n} paths of {dt} until {t}', 'h: fn:num, k: int', f'np.random.seed(k)\nx = default_bernoulli_paths(h, {t}, {dt}, {n})\nreturn (x.shape, times(x, {n}))',
             f'np.random.seed(k)\nreturn (({n},), simulate(h, {steps}, {t}, {dt}, {n}))', at=A,
             wrong=f'np.random.seed(k)\nreturn (({n},), simulate(h, {steps + 1}, {t}, {dt}, {n}))')
