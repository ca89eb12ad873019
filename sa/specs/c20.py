from ob import Spec
from c19 import IMPORTS, HELP, OP

S = Spec('C20', IMPORTS, HELP + '''
D = DayCountConvention.ACTUAL_OVER_ACTUAL

def kr(d, p=None, n=None):
    return KeyRate(D, d, p, n)

def seen(c, x):
    """everything a collection shows of itself"""
    return ([(k.key_rate_date, k.prior_date, k.next_date, k(x)) for k in c], c(x), len(c), bool(c), [k.key_rate_date for k in c.key_rates])

def want(dates, x, bump=0.0001):
    around = [None] + list(dates) + [None]
    ks = [(around[i], around[i - 1], around[i + 1], tent(x, around[i - 1], around[i], around[i + 1], D, bump)) for i in range(1, len(dates) + 1)]
    return (ks, sum(t for _, _, _, t in ks), len(dates), True, list(dates))
''')
C = 'KeyRateCollection'


def names(n, extra=''):
    v = 'abcd'[:n]
    return ', '.join(f'{c}: date' for c in v) + ', x: date' + extra


def order(n):
    v = 'abcd'[:n]
    return [f'{p} < {q}' for p, q in zip(v, v[1:])]


def mk(v):
    return 'KeyRateCollection([' + ', '.join(f'kr({c})' for c in v) + '])'


def L(v):
    return '[' + ', '.join(v) + ']'


import itertools
for n in (1, 2, 3):
    v = 'abcd'[:n]
    for perm in itertools.permutations(v):
        S.eq(f'collection of {n} given as {"".join(perm)}', names(n), f'seen({mk(perm)}, x)', f'want({L(v)}, x)', pre=order(n), opaque=OP, at='KeyRateCollection._set_dates_in_collection', wrong=f'want({L(v)}, x, 0.0002)')
    S.eq(f'collection of {n} key rates with other neighbours', names(n, ', p: date, q: date'), f'seen(KeyRateCollection([' + ', '.join(f'kr({c}, p, q)' for c in v) + ']), x)', f'want({L(v)}, x)', pre=order(n) + [f'p < {v[0]}', f'{v[-1]} < q'],
         opaque=OP, at='KeyRateCollection._set_dates_in_collection')
    S.eq(f'bump of a collection of {n}', names(n, ', u: num'), f'col = {mk(v)}\ncol.set_bump_val(u)\nreturn seen(col, x)', f'want({L(v)}, x, u)', pre=order(n), opaque=OP, at='KeyRateCollection.set_bump_val')
    S.eq(f'collection of {n} from an iterator', names(n), f'seen(KeyRateCollection(k for k in [' + ', '.join(f'kr({c})' for c in v) + ']), x)', f'want({L(v)}, x)', pre=order(n), opaque=OP, at='KeyRateCollection.__init__')
    for i in range(-n, n):
        w = list(v)
        w[i] = 'z'
        fits = [f'{w[j]} < {w[j + 1]}' for j in range(n - 1)]
        S.eq(f'replace number {i} of {n}', names(n, ', z: date'), f'col = {mk(v)}\ncol[{i}] = kr(z)\nreturn seen(col, x)', f'want({L(w)}, x)', pre=order(n) + fits, opaque=OP, at='KeyRateCollection.__setitem__')
        if n > 1:
            j = i % n
            bad = []
            if j > 0:
                bad.append(f'z <= {v[j - 1]}')
            if j < n - 1:
                bad.append(f'z >= {v[j + 1]}')
            S.eq(f'replace number {i} of {n} out of place is refused', names(n, ', z: date'), f'col = {mk(v)}\ntry:\n    col[{i}] = kr(z)\nexcept ValueError:\n    return ("refused", seen(col, x))\nreturn ("taken",)', f'return ("refused", want({L(v)}, x))',
                 pre=order(n) + [' or '.join(bad)], opaque=OP, at='KeyRateCollection.__setitem__')
            k = list(v)
            del k[i]
            S.eq(f'delete number {i} of {n}', names(n), f'col = {mk(v)}\ndel col[{i}]\nreturn seen(col, x)', f'want({L(k)}, x)', pre=order(n), opaque=OP, at='KeyRateCollection.__delitem__')
        S.eq(f'number {i} of {n}', names(n), f'{mk(v)}[{i}].key_rate_date', v[i], pre=order(n), at='KeyRateCollection.__getitem__')
    S.eq(f'a number past {n} is refused', names(n), f'{mk(v)}[{n}]', 'raise IndexError', pre=order(n), at='KeyRateCollection.__getitem__')
    # adding one key rate at every possible position
    for pos in range(n + 1):
        w = list(v)
        w.insert(pos, 'z')
        fits = [f'{w[j]} < {w[j + 1]}' for j in range(n)]
        for op, text in (('+= one', 'col += kr(z)'), ('+= list', 'col += [kr(z)]'), ('+= collection', 'col += KeyRateCollection([kr(z)])'), ('append', 'col.append(kr(z))'), ('insert 0', 'col.insert(0, kr(z))'), ('insert last', f'col.insert({n}, kr(z))'),
                         ('extend', 'col.extend([kr(z)])')):
            S.eq(f'{op} to {n} at position {pos}', names(n, ', z: date'), f'col = {mk(v)}\n{text}\nreturn seen(col, x)', f'want({L(w)}, x)', pre=fits, opaque=OP, at='KeyRateCollection.__iadd__')
        S.eq(f'sum of {n} and one at position {pos}', names(n, ', z: date'), f'col = {mk(v)}\ne = KeyRateCollection([kr(z)])\nf = col + e\nreturn (seen(f, x), seen(col, x), seen(e, x))',
             f'return (want({L(w)}, x), want({L(v)}, x), want([z], x))', pre=fits, opaque=OP, at='KeyRateCollection.__add__')
    for one in v:
        for op, text in (('+= one', f'col += kr({one})'), ('append', f'col.append(kr({one}))'), ('insert', f'col.insert(0, kr({one}))')):
            S.eq(f'{op} of {one} again to {n}', names(n), f'col = {mk(v)}\n{text}\nreturn seen(col, x)', f'want({L(v)}, x)', pre=order(n), opaque=OP, at='KeyRateCollection.__iadd__')
        S.eq(f'sum of {n} and {one} again', names(n), f'col = {mk(v)}\nf = col + KeyRateCollection([kr({one})])\nreturn (seen(f, x), seen(col, x))', f'return (want({L(v)}, x), want({L(v)}, x))', pre=order(n), opaque=OP, at='KeyRateCollection.__add__')
    S.eq(f'a sum of {n} keeps bumps apart', names(n, ', z: date, u: num'), f'col = {mk(v)}\nf = col + KeyRateCollection([kr(z)])\nf.set_bump_val(u)\nreturn (seen(f, x), seen(col, x))', f'return (want({L(list(v) + ["z"])}, x, u), want({L(v)}, x))',
         pre=order(n) + [f'{v[-1]} < z'], opaque=OP, at='KeyRateCollection.__add__')
    for lo in range(n):
        for hi in range(lo + 1, n + 1):
            S.eq(f'slice {lo} to {hi} of {n}', names(n), f'col = {mk(v)}\nf = col[{lo}:{hi}]\nreturn (seen(f, x), seen(col, x))', f'return (want({L(v[lo:hi])}, x), want({L(v)}, x))', pre=order(n), opaque=OP, at='KeyRateCollection.__getitem__')
    S.eq(f'every second of {n}', names(n), f'col = {mk(v)}\nreturn (seen(col[::2], x), seen(col, x))', f'return (want({L(v[::2])}, x), want({L(v)}, x))', pre=order(n), opaque=OP, at='KeyRateCollection.__getitem__')
    S.eq(f'stepping through {n}', names(n), f'col = {mk(v)}\nout = []\nfor _ in range(2):\n    while True:\n        try:\n            out.append(next(col).key_rate_date)\n        except StopIteration:\n            break\nreturn out', L(v + v), pre=order(n), at='KeyRateCollection.__next__')
    S.eq(f'equality of {n}', names(n, ', z: date'), f'({mk(v)} == {mk(v[::-1])}, {mk(v)} == {mk(list(v)[:-1] + ["z"])}, {mk(v)} == {mk(list(v) + ["z"])})', '(True, False, False)', pre=order(n) + [f'{v[-1]} < z'], at='KeyRateCollection.__eq__')
    S.eq(f'a bump of one key rate of {n} shows in the collection', names(n, ', u: num'), f'col = {mk(v)}\ncol[0].set_bump_val(u)\nreturn col(x) - col[0](x)', f'around = {L(v)} + [None]\nreturn sum(tent(x, around[i - 1], around[i], around[i + 1], D) for i in range(1, {n}))', pre=order(n), opaque=OP,
         at='KeyRateCollection._create_combined_adjustment_function')
    S.eq(f'key rates of {n} together move every date by the bump', names(n, ', u: num'), 'col = KeyRateCollection([' + ', '.join(f'KeyRate(DayCountConvention.ACTUAL_OVER_360, {c})' for c in v) + '])\ncol.set_bump_val(u)\nreturn col(x)', 'u', pre=order(n),
         at='KeyRateCollection._create_combined_adjustment_function')
S.eq('additions, a deletion and a replacement', 'p: date, q: date, s: date, z: date, x: date', 'col = KeyRateCollection([kr(q)])\ncol += kr(p)\ncol.append(kr(s))\ndel col[1]\ncol[0] = kr(z)\nreturn seen(col, x)', 'return want([z, s], x)', pre=['p < q', 'q < s', 'z < s'], opaque=OP, at='KeyRateCollection.__iadd__')
S.eq('bump, then change', 'p: date, q: date, s: date, x: date, u: num', 'col = KeyRateCollection([kr(q), kr(p)])\ncol.set_bump_val(u)\ndel col[0]\nreturn seen(col, x)', 'return want([q], x, u)', pre=['p < q', 'q < s'], opaque=OP, at='KeyRateCollection.__delitem__')
S.eq('an empty collection is refused', 'x: date', 'KeyRateCollection([])', 'raise ValueError', at='KeyRateCollection.__init__')
S.eq('two key rates of one date are refused', 'a: date', 'KeyRateCollection([KeyRate(DayCountConvention.ACTUAL_OVER_360, a), KeyRate(DayCountConvention.ACTUAL_OVER_ACTUAL, a)])', 'raise ValueError', at='KeyRateCollection.__init__')
S.eq('pop', 'a: date, b: date, x: date', 'col = KeyRateCollection([kr(a), kr(b)])\nk = col.pop()\nreturn (seen(col, x), k.key_rate_date)', 'return (want([a], x), b)', pre=['a < b'], opaque=OP, at='KeyRateCollection.__delitem__')
S.eq('remove', 'a: date, b: date, x: date', 'col = KeyRateCollection([kr(a), kr(b)])\ncol.remove(kr(a))\nreturn seen(col, x)', 'return want([b], x)', pre=['a < b'], opaque=OP, at='KeyRateCollection.__delitem__')
S.eq('membership', 'a: date, b: date, z: date, x: date', 'col = KeyRateCollection([kr(a), kr(b)])\nreturn (kr(a) in col, kr(z) in col, KeyRate(DayCountConvention.ACTUAL_OVER_360, a) in col)', '(True, z == a or z == b, False)', pre=['a < b'], at='KeyRateCollection')

# refusals change nothing, equal key rates are kept once
OTHER = 'KeyRate(DayCountConvention.ACTUAL_OVER_360, {})'
for n in (1, 2, 3):
    v = 'abcd'[:n]
    for c in v:
        for how, do in (('+=', 'col += {}'), ('insert', 'col.insert(0, {})'), ('append', 'col.append({})'), ('+= of a collection', 'col += KeyRateCollection([{}])')):
            S.eq(f'{how} another convention on date {c} of {n} is refused', names(n), f'col = {mk(v)}\ntry:\n    {do.format(OTHER.format(c))}\nexcept ValueError:\n    return ("refused", seen(col, x))\nreturn ("taken",)', f'return ("refused", want({L(v)}, x))',
                 pre=order(n), opaque=OP, at='KeyRateCollection.__iadd__', tier='quick' if n < 3 else 'thorough')
        S.eq(f'sum with another convention on date {c} of {n} is refused', names(n), f'col = {mk(v)}\nj = KeyRateCollection([{OTHER.format(c)}])\ntry:\n    col + j\nexcept ValueError:\n    return ("refused", seen(col, x), [k(x) for k in j])\nreturn ("taken",)', f'return ("refused", want({L(v)}, x), [0.0001])',
             pre=order(n), opaque=OP, at='KeyRateCollection.__add__', tier='quick' if n < 3 else 'thorough')
        S.eq(f'+= an equal key rate {c} of {n} keeps the one there', names(n, ', u: num'), f'col = {mk(v)}\ncol.set_bump_val(u)\ncol += kr({c})\nreturn seen(col, x)', f'return want({L(v)}, x, u)',
             pre=order(n), opaque=OP, at='KeyRateCollection.__iadd__', tier='quick' if n < 3 else 'thorough')
S.eq('deleting the only key rate is refused', names(1), f'col = {mk("a")}\ntry:\n    del col[0]\nexcept ValueError:\n    return ("refused", seen(col, x))\nreturn ("taken",)', 'return ("refused", want([a], x))', opaque=OP, at='KeyRateCollection.__delitem__')
