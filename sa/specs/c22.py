from ob import Spec
from c19 import HELP as H19
from c17 import IMPORTS as I17

S = Spec('C22', I17 + '''
from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
from fixedIncome.src.risk.risk_metrics import Risk, RiskLadder
from fixedIncome.src.portfolio.base_portfolio import Portfolio, PortfolioEntry
''', H19 + '''
class Asset:
    """an asset known by its curve knot and by its value on a curve"""
    def __init__(self, knot, worth):
        self.knot = knot
        self.worth = worth
    def to_knot_value_pair(self):
        return self.knot
    def present_value(self, curve):
        return curve(self.knot.knot) * self.worth

class Given:
    """any asset"""
    def __init__(self, value):
        self.value = value
    def present_value(self, curve):
        return self.value
''')
DA = 'KeyRateCollection'
for form, mk in (('list', '[PortfolioEntry(n, Asset(k, w)) for n, k, w in zip(ns, ks, ws)]'), ('iterator', '(PortfolioEntry(n, Asset(k, w)) for n, k, w in zip(ns, ks, ws))')):
    S.eq(f'value of a portfolio from a {form}', 'ns: seq:num, ks: seq:obj:KnotValuePair, ws: seq:num, f: fn:num, c: num', f'Portfolio({mk}, c).present_value(f)', 'c + sum(n * w * f(k.knot) for n, k, w in zip(ns, ks, ws))',
         pre=['len(ns) == len(ks)', 'len(ns) == len(ws)'], at='Portfolio.present_value', wrong='sum(n * w * f(k.knot) for n, k, w in zip(ns, ks, ws))')
S.eq('value of a portfolio without cash', 'ns: seq:num, vs: seq:num, f: fn:num', 'Portfolio([PortfolioEntry(n, Given(v)) for n, v in zip(ns, vs)]).present_value(f)', 'sum(n * v for n, v in zip(ns, vs))', pre=['len(ns) == len(vs)'], at='Portfolio.present_value')
S.eq('value of a portfolio again', 'ns: seq:num, vs: seq:num, f: fn:num, c: num', 'p = Portfolio((PortfolioEntry(n, Given(v)) for n, v in zip(ns, vs)), c)\np.present_value(f)\nfor a in p:\n    pass\nreturn p.present_value(f)', 'c + sum(n * v for n, v in zip(ns, vs))',
     pre=['len(ns) == len(vs)'], at='Portfolio.present_value')
S.eq('value of an empty portfolio', 'f: fn:num, c: num', 'Portfolio([], c).present_value(f)', 'c', at='Portfolio.present_value')
S.eq('portfolio does not follow the list it was given', 'a: num, b: num, v: num, f: fn:num', 'xs = [PortfolioEntry(a, Given(v))]\np = Portfolio(xs)\nxs.append(PortfolioEntry(b, Given(v)))\nreturn p.present_value(f)', 'a * v', at='Portfolio.__init__')
S.eq('iterating a portfolio', 'ns: seq:num, vs: seq:num', '[(e.quantity, e.asset.value) for e in Portfolio([PortfolioEntry(n, Given(v)) for n, v in zip(ns, vs)])]', '[(n, v) for n, v in zip(ns, vs)]', at='Portfolio.__iter__')
STEP = 'out = []\nfor _ in range(2):\n    while True:\n        try:\n            out.append(next(p){})\n        except StopIteration:\n            break\nreturn out'
for n in (0, 1, 2, 3):
    v = 'abc'[:n]
    args = ''.join(f'{c}: num, ' for c in v) + 'z: num'
    S.eq(f'stepping through a portfolio of {n}', args, 'p = Portfolio([' + ', '.join(f'PortfolioEntry({c}, Given(z))' for c in v) + '])\n' + STEP.format('.quantity'), '[' + ', '.join(v + v) + ']', at='Portfolio.__next__')
# key rates
import itertools
for n in (1, 2, 3):
    v = 'abc'[:n]
    args = ', '.join(f'{c}: obj:KnotValuePair, w{c}: num' for c in v) + ', x: date'
    order = [f'{s}.knot < {t}.knot' for s, t in zip(v, v[1:])]
    for dcc in ('ACTUAL_OVER_ACTUAL', 'THIRTY_OVER_THREESIXTY'):
        D = f'DayCountConvention.{dcc}'
        for perm in list(itertools.permutations(v)) + [tuple(v + v[:1])]:
            p = 'p = Portfolio([' + ', '.join(f'PortfolioEntry(w{c}, Asset({c}, w{c}))' for c in perm) + '])\n'
            S.eq(f'key rates of a portfolio of {"".join(perm)}, {dcc}', args, f'{p}col = p.to_key_rate_collection({D})\nreturn ([(k.key_rate_date, k.prior_date, k.next_date, k.day_count_convention, k.bump_val) for k in col], col(x))',
                 f'around = [None] + [{", ".join(c + ".knot" for c in v)}] + [None]\nreturn ([(around[i], around[i - 1], around[i + 1], {D}, 0.0001) for i in range(1, {n + 1})], sum(tent(x, around[i - 1], around[i], around[i + 1], {D}) for i in range(1, {n + 1})))',
                 pre=order, opaque=('DayCountCalculator.compute_accrual_length',), at='Portfolio.to_key_rate_collection')
    for q, tag in ((0.0, 'nothing'), (-2.0, 'a short position')):
        for z in range(n):
            S.eq(f'key rates of a portfolio of {n} holding {tag} of asset {z}', args, 'p = Portfolio([' + ', '.join(f'PortfolioEntry({q if i == z else 1.0}, Asset({c}, w{c}))' for i, c in enumerate(v)) + '])\ncol = p.to_key_rate_collection(DayCountConvention.ACTUAL_OVER_ACTUAL)\nreturn [(k.key_rate_date, k.prior_date, k.next_date) for k in col]',
                 f'around = [None] + [{", ".join(c + ".knot" for c in v)}] + [None]\nreturn [(around[i], around[i - 1], around[i + 1]) for i in range(1, {n + 1})]', pre=order, opaque=('DayCountCalculator.compute_accrual_length',), at='Portfolio.to_key_rate_collection')
    S.eq(f'key rates of a portfolio of {n}, each asset of the same date', args, 'col = Portfolio([' + ', '.join(f'PortfolioEntry(w{c}, Asset({c}, w{c}))' for c in v) + f']).to_key_rate_collection({D})\nreturn [k.key_rate_date for k in col]', '[a.knot]',
         pre=[f'{c}.knot == a.knot' for c in v[1:]], at='Portfolio.to_key_rate_collection')
S.eq('an empty portfolio has no key rates', 'x: date', 'Portfolio([]).to_key_rate_collection(DayCountConvention.ACTUAL_OVER_360)', 'raise ValueError', at='Portfolio.to_key_rate_collection')
# risk ladder
L = 'ds: seq:date, ps: seq:num'
MK = 'RiskLadder({}Risk(d, p, CurveIndex.SOFR) for d, p in zip(ds, ps){})'
for form, a, b in (('list', '[', ']'), ('iterator', '(', ')')):
    S.eq(f'risk ladder from a {form}', L, f'x = {MK.format(a, b)}\nreturn (x.get_key_rate_dates(), x.get_pv01s(), x.get_indices(), len(x), [(r.key_rate_date, r.pv01, r.index) for r in x])',
         'return (ds, ps, [CurveIndex.SOFR for d in ds], len(ds), [(d, p, CurveIndex.SOFR) for d, p in zip(ds, ps)])', pre=['len(ds) == len(ps)'], at='RiskLadder.__init__')
S.eq('risk ladder read twice', L, f'x = {MK.format("(", ")")}\nx.get_pv01s()\nfor r in x:\n    pass\nreturn (x.get_pv01s(), [r.key_rate_date for r in x.risks])', 'return (ps, ds)', pre=['len(ds) == len(ps)'], at='RiskLadder.get_pv01s')
for n in (0, 1, 2):
    v = 'ab'[:n]
    args = ''.join(f'{c}: date, p{c}: num, ' for c in v) + 'z: date, q: num'
    risks = '[' + ', '.join(f'Risk({c}, p{c}, CurveIndex.SOFR)' for c in v) + ']'
    S.eq(f'risk ladder of {n} contains its risks only', args, f'Risk(z, q, CurveIndex.SOFR) in RiskLadder({risks})', ' or '.join(f'({c} == z and p{c} == q)' for c in v) or 'False', at='RiskLadder.__contains__')
    S.eq(f'risk ladder of {n} does not contain other indices', args, f'Risk(z, q, CurveIndex.US_TREASURY) in RiskLadder({risks})', 'False', at='RiskLadder.__contains__')
    S.eq(f'stepping through a risk ladder of {n}', args, f'p = RiskLadder({risks})\n' + STEP.format('.pv01'), '[' + ', '.join(f'p{c}' for c in v + v) + ']', at='RiskLadder.__next__')
