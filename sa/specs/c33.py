from ob import Spec
IMPORTS = '''
import math
import numpy as np
from scipy.optimize import minimize
from fixedIncome.src.portfolio.portfolio_optimization import PortfolioOptimizer
'''
HELP = '''
def opt(ms, c):
    """an optimiser of as many assets as there are means, their covariances given row by row"""
    n = len(ms)
    return PortfolioOptimizer(np.array(ms), np.array([[c[n * i + j] for j in range(n)] for i in range(n)]))
def var(w, c):
    n = len(w)
    return sum(w[i] * w[j] * c[n * i + j] for i in range(n) for j in range(n))
def best(n, goal, equations, shorts):
    return minimize(fun=goal, x0=[0.0] * n, constraints=[{'type': 'eq', 'fun': e} for e in equations], bounds=None if shorts else [(0.0, None)] * n).x
def row(x, n):
    return tuple(x[i] for i in range(n))
'''
S = Spec('C33', IMPORTS, HELP)
V = 'PortfolioOptimizer.'
for n in (1, 2, 3):
    A = ', '.join(f'm{i}: num' for i in range(n)) + ', ' + ', '.join(f'v{i}{j}: num' for i in range(n) for j in range(i, n))
    C = '[' + ', '.join(f'v{min(i, j)}{max(i, j)}' for i in range(n) for j in range(n)) + ']'
    M = '[' + ', '.join(f'm{i}' for i in range(n)) + ']'
    for sh, kw, val in (('', '', False), (' with short positions', ', allow_short_positions=True', True), (' without short positions', ', allow_short_positions=False', False)):
        S.eq(f'least variance of {n}{sh}', A + ', r: num', f'row(opt({M}, {C}).find_minimum_variance_portfolio(r{kw}), {n})',
             f'return row(best({n}, lambda w: var(w, {C}), [lambda w: sum(w) - 1.0, lambda w: sum(w[i] * {M}[i] for i in range({n})) - r], {val}), {n})', at=V + 'find_minimum_variance_portfolio')
        S.eq(f'greatest utility of {n}{sh}', A + ', g: num, h: num', f'row(opt({M}, {C}).find_maximum_utility_portfolio(g, h{kw}), {n})',
             f'return row(best({n}, lambda w: h * g / 2 * var(w, {C}) - sum(w[i] * {M}[i] for i in range({n})), [lambda w: sum(w) - 1.0], {val}), {n})', at=V + 'find_maximum_utility_portfolio')
    if n == 1:
        continue
    W = f'ws = [best({n}, lambda w: var(w, {C}), [lambda w: sum(w) - 1.0, lambda w: sum(w[i] * {M}[i] for i in range({n})) - r], {{}}) for r in rs]\n'
    O = f'return ([r for r in rs], [math.sqrt(var(w, {C})) for w in ws], [row(w, {n}) for w in ws])'
    for sh, kw, val in (('', '', False), (' with short positions', ', allow_short_positions=True', True)):
        S.eq(f'efficient frontier of {n}{sh}', A + ', lo: num, hi: num, step: pos', f'r, v, w = opt({M}, {C}).calculate_efficient_frontier(lo, hi, step{kw})\nreturn ([x for x in r], [x for x in v], [row(x, {n}) for x in w])',
             'rs = np.arange(lo, hi + step, step)\n' + W.format(val) + O, at=V + 'calculate_efficient_frontier', wrong='rs = np.arange(lo, hi, step)\n' + W.format(val) + O)
    S.eq(f'efficient frontier of {n} over all returns', A, f'r, v, w = opt({M}, {C}).calculate_efficient_frontier()\nreturn ([x for x in r], [x for x in v], [row(x, {n}) for x in w])',
         f'lo, hi = min({M}) + 0.001, max({M}) - 0.001\nrs = np.arange(lo, hi + 0.001, 0.001)\n' + W.format('False') + O, at=V + 'calculate_efficient_frontier')
S.eq('sharpe ratio', 'm: num, r0: num, r1: num, r2: num, v0: pos, v1: pos, v2: pos, f: num', 'row(opt([m], [1.0]).sharpe_ratio(np.array([r0, r1, r2]), np.array([v0, v1, v2]), f), 3)', '((r0 - f) / v0, (r1 - f) / v1, (r2 - f) / v2)', at=V + 'sharpe_ratio', wrong='((r0 + f) / v0, (r1 - f) / v1, (r2 - f) / v2)')
S.eq('sharpe ratio of one portfolio', 'm: num, r: num, v: pos, f: num', 'opt([m], [1.0]).sharpe_ratio(r, v, f)', '(r - f) / v', at=V + 'sharpe_ratio', wrong='r / v')
S.eq('what an optimiser knows', 'a: num, b: num, c: num, u: num, v: num, w: num', 'o = opt([a, b, c], [u, v, w, v, u, w, w, w, u])\nreturn (row(o.mean_vector, 3), o.covariance_matrix[0, 2], o.num_assets, o.min_return, o.max_return)', '((a, b, c), w, 3, min(a, b, c), max(a, b, c))', at=V + '__init__')
