"""setup: the analyser's own positive and negative examples (texts parsed and value-numbered, never executed)"""
import os, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
threading.stack_size(256 * 1024 * 1024)
from ob import Spec
S = Spec('SELF', 'from datetime import date, timedelta\nimport numpy as np\n')
CASES = []


def case(want, args, a, b, pre=()):
    S.eq(f'case {len(CASES)}', args, a, b, pre=pre)
    CASES.append(want)


case('EQ', 'x: seq:num', 'sum(x)', '''
t = 0
for v in x:
    t += v
return t
''')
case('NEQ', 'x: seq:num', 'sum(x)', 'sum(x[1:])')
case('NEQ', 'x: seq:num', 'sum(x)', 'sum(2 * v for v in x)')
case('EQ', 'd: date', 'd.weekday() >= 5', 'd.weekday() in (5, 6)')
case('NEQ', 'd: date', 'd.weekday() > 5', 'd.weekday() in (5, 6)')
case('EQ', 'd: date', '(d + timedelta(7)).weekday()', 'd.weekday()')
case('NEQ', 'a: num, b: num', '(a - b) ** 2', 'a ** 2 - b ** 2')
case('EQ', 'a: num, b: num', '(a - b) * (a + b)', 'a ** 2 - b ** 2')
case('EQ', 'n: int', '[k * k for k in range(n)]', '''
out = []
i = 0
while i < n:
    out.append(i * i)
    i += 1
return out
''')
case('NEQ', 'n: int', '[k for k in range(n)]', '[k for k in range(1, n)]')
case('UNK', 'x: num', 'np.clip(x, 0.0, 1.0)', 'x')
case('EQ', 'a: num, b: num, c: num', 'a < b < c', 'a < b and b < c')
case('EQ', 'h: fn:num', '''
t, k = 0.5, 0
while t < 1.75:
    if h(t) > 0:
        break
    t += 0.5
return t
''', '0.5 if h(0.5) > 0 else 1.0 if h(1.0) > 0 else 1.5 if h(1.5) > 0 else 2.0')
case('NEQ', 'h: fn:num', '''
t = 0.5
while t < 1.5:
    if h(t) > 0:
        break
    t += 0.5
return t
''', '0.5 if h(0.5) > 0 else 1.0 if h(1.0) > 0 else 1.5 if h(1.5) > 0 else 2.0')


BAD = """
from __future__ import annotations
import math
from abc import abstractmethod
from enum import Enum
from datetime import date
from fixedIncome.src.scheduling_tools.scheduler import Scheduler, Timetable
class Kind(Enum):
    A = 1
class Base:
    def __init__(self, x: int, y: int = 0):
        self.x = x
    @abstractmethod
    def value(self) -> float: ...
class Good(Base):
    def __init__(self, x, z):
        super().__init__(x)
        self.z = z
    def value(self) -> float:
        return self.x + self.z + math.sqrt(self.x)
    def kind(self):
        return Kind.A if self.x else [k for k in Kind][0].name
class Lazy(Base):
    def more(self):
        return self.x
class Odd(Good):
    def __init__(self, z):
        self.z = z
def a(g: Good):
    return g.value() + g.x + g.w
def b():
    return Good(1, 2, 3), Good(x=1, z=2), Good(1), Good(1, w=3), Lazy(1)
def c(x) -> float:
    y = unknown + x
def d(x):
    ValueError('no')
    try:
        return Kind.B
    except Exception:
        pass
def e():
    return math.sqroot(2.0), math.sqrt(1.0, 2.0), date(2020, 1), Good.value(Good(1, 2)), Good.value(Good(1, 2), 3)
"""
WANT = {'name': 1, 'import': 1, 'implementation': 2, 'attribute': 2, 'initialised': 1, 'call': 6, 'ends': 3}


def rules():
    """one small module with known defects: each rule finds those and nothing else"""
    import project, resolve
    P = project.Project()
    name = 'fixedIncome.src.selftest_sample'
    P.add_module(name, BAD, 'sample')
    got = {}
    for fn in resolve.ALL:
        for v in fn(P).violations:
            if v['construct'].startswith('sample'):
                got.setdefault(v['rule'], []).append(v['text'])
    if {k: len(v) for k, v in got.items()} != WANT:
        print('selftest rules', got)
        return 1
    return 0


def main():
    import project, engine
    P = project.Project()
    bad = 0
    for i, (ob, want) in enumerate(zip(S.obs, CASES)):
        r = engine.run_ob(P, S, i, ob)
        if r.verdict != want:
            bad += 1
            print('selftest', i, 'expected', want, 'got', r.verdict, r.why, r.broken, r.notes)
    bad += rules()
    print(f'selftest: {len(CASES) + 1 - bad}/{len(CASES) + 1} examples decided as expected')
    sys.stdout.flush()
    os._exit(1 if bad else 0)


t = threading.Thread(target=main)
t.start()
t.join()
os._exit(3)
