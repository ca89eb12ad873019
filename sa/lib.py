"""Summaries of the language's built-ins and of the external libraries the repository uses, in the value-graph domain.

Dates are day numbers, timedeltas are day counts, relativedeltas are combinations of MONTH and DAY steps, arrays are explicit
(nested) sequences with elementwise arithmetic.  Anything not summarised becomes an uninterpreted call term."""
import ast
from fractions import Fraction
from terms import *
import terms as tm
from seqs import *
import seqs
import lin
import nd
from project import ClassInfo

import interp as _i

PYTYPES = {'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset', 'object', 'type', 'complex', 'bytes'}
DUNDER = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'),
          'Div': ('__truediv__', '__rtruediv__'), 'FloorDiv': ('__floordiv__', '__rfloordiv__'), 'Mod': ('__mod__', '__rmod__'),
          'Pow': ('__pow__', '__rpow__'), 'MatMult': ('__matmul__', '__rmatmul__'), 'BitOr': ('__or__', '__ror__'),
          'BitAnd': ('__and__', '__rand__'), 'BitXor': ('__xor__', '__rxor__')}
CMP = {'Lt': ('__lt__', '__gt__'), 'Gt': ('__gt__', '__lt__'), 'LtE': ('__le__', '__ge__'), 'GtE': ('__ge__', '__le__')}
LIST_M = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'index', 'count', 'copy', 'clear'}
DICT_M = {'keys', 'values', 'items', 'get', 'pop', 'setdefault', 'update', 'copy', 'clear', 'popitem'}
SET_M = {'add', 'remove', 'discard', 'union', 'intersection', 'difference', 'update', 'issubset', 'issuperset', 'copy', 'clear', 'isdisjoint', 'symmetric_difference'}
STR_M = {'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'join', 'format', 'split', 'startswith', 'endswith', 'replace', 'title', 'capitalize', 'find', 'isdigit', 'encode', 'zfill'}
DATE_F = {'year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'}
DATE_M = {'weekday', 'isoweekday', 'strftime', 'isoformat', 'toordinal', 'replace', 'date', 'timestamp', 'timetuple', 'time', 'ctime'}
ARR_M = {'dot', 'sum', 'mean', 'flatten', 'reshape', 'tolist', 'copy', 'transpose', 'item', 'prod', 'max', 'min', 'ravel', 'cumsum', 'squeeze', 'astype', 'argmax', 'fill', 'std', 'trace'}
NUMTY = {'num', 'int', 'float', 'pos', 'nonneg', 'pos_int'}


# ------------------------------------------------------------------ calendar terms
def days_in_month(m):
    return {1: 31, 3: 31, 4: 30, 5: 31, 6: 30, 7: 31, 8: 31, 9: 30, 10: 31, 11: 30, 12: 31}.get(m)


def lastday(y, m):
    c = as_int(m)
    if c is not None and c != 2 and days_in_month(c):
        return num(days_in_month(c))
    if c == 2 and as_int(y) is not None:
        import calendar
        return num(calendar.monthrange(as_int(y), 2)[1])
    if y.op == 'ite':
        return ite(y.args[0], lastday(y.args[1], m), lastday(y.args[2], m))
    if m.op == 'ite':
        return ite(m.args[0], lastday(y, m.args[1]), lastday(y, m.args[2]))
    if c is None and (m.op == 'month' or m.op == 'sym'):
        short = or_(*[zero(sub(m, num(k))) for k in (4, 6, 9, 11)])
        return ite(zero(sub(m, num(2))), lastday(y, num(2)), ite(short, num(30), num(31)))
    if c == 2:
        return ite(leap(y), num(29), num(28))
    return mk('lastday', y, m)


def leap(y):
    return and_(zero(mod(y, num(4))), or_(not_(zero(mod(y, num(100)))), zero(mod(y, num(400)))))


def isdate(t):
    I = Lib.I
    ty = I.ty(t) if I else None
    return ty == 'date'


def mkdate(y, m, d):
    if y.op == 'year' and m.op == 'month' and d.op == 'day' and y.args[0] is m.args[0] and m.args[0] is d.args[0]:
        return dateof(y.args[0])
    for k, x in enumerate((y, m, d)):
        if x.op == 'ite':
            a, b = [y, m, d], [y, m, d]
            a[k], b[k] = x.args[1], x.args[2]
            return ite(x.args[0], mkdate(*a), mkdate(*b))
        if x.op == 'unk':
            return x
    return mk('mkdate', y, m, d)


def dateof(x):
    if x.op == 'unk':
        return x
    if x.op == 'ite':
        return ite(x.args[0], dateof(x.args[1]), dateof(x.args[2]))
    if lin.is_int_term(x):
        return x
    its = tm._poly_items(x)
    c = its.get((), Fraction(0))
    rest = tm._from_items({m: k for m, k in its.items() if m != ()})
    if lin.is_int_term(rest):
        return add(rest, num(c.__floor__()))
    # integral offset of a single opaque datetime
    ints = {m: k for m, k in its.items() if m != () and lin.is_int_term(tm._from_items({m: k}))}
    other = tm._from_items({m: k for m, k in its.items() if m != () and m not in ints})
    if ints and other.op != 'num':
        fl = c.__floor__()
        return add(tm._from_items(ints), num(fl), dateof(add(other, num(c - fl))))
    if c and c == c.__floor__():
        return add(mk('dateof', rest), num(c))
    return mk('dateof', x)


def field(name, d):
    if d.op == 'ite':
        return ite(d.args[0], field(name, d.args[1]), field(name, d.args[2]))
    if d.op == 'unk':
        return d
    if name in ('year', 'month', 'day'):
        if d.op == 'mkdate':
            return d.args[('year', 'month', 'day').index(name)]
        if d.op == 'dateof':
            return mk(name, d.args[0])
        if d.op == 'dateadd' and name != 'day':
            n = months_of(d.args[1])
            if n is not None:
                m0 = add(field('month', d.args[0]), sub(n, ONE))
                if name == 'month':
                    return field('month', d.args[0]) if n.op == 'num' and n.args[0] % 12 == 0 else add(mod(m0, num(12)), ONE)
                if n.op == 'num' and n.args[0] % 12 == 0:
                    return add(field('year', d.args[0]), num(n.args[0] / 12))
                return add(field('year', d.args[0]), floordiv(m0, num(12)))
        if d.op == 'poly':
            its = tm._poly_items(d)
            # date plus a fraction of a day in [0,1)
            c = its.get((), Fraction(0))
            if 0 < c < 1:
                rest = tm._from_items({m: k for m, k in its.items() if m != ()})
                if lin.is_int_term(rest):
                    return field(name, rest)
            if abs(c) == 1:
                rest = tm._from_items({m: k for m, k in its.items() if m != ()})
                if lin.is_int_term(rest) and rest.op in ('sym', 'dateadd', 'mkdate'):
                    y, m_, d_ = field('year', rest), field('month', rest), field('day', rest)
                    if c == 1:
                        end = zero(sub(d_, lastday(y, m_)))
                        return {'year': ite(and_(zero(sub(m_, num(12))), zero(sub(d_, num(31)))), add(y, ONE), y),
                                'month': ite(end, ite(zero(sub(m_, num(12))), ONE, add(m_, ONE)), m_),
                                'day': ite(end, ONE, add(d_, ONE))}[name]
                    start = zero(sub(d_, ONE))
                    pm = ite(zero(sub(m_, ONE)), num(12), sub(m_, ONE))
                    return {'year': ite(and_(start, zero(sub(m_, ONE))), sub(y, ONE), y),
                            'month': ite(start, pm, m_),
                            'day': ite(start, ite(zero(sub(m_, num(3))), ite(leap(y), num(29), num(28)),
                                                  ite(or_(*[zero(sub(m_, num(k))) for k in (5, 7, 10, 12)]), num(30), num(31))), sub(d_, ONE))}[name]
        return mk(name, d)
    if lin.is_int_term(d):
        return ZERO
    return mk(name, d)


def weekday(d):
    if d.op == 'ite':
        return ite(d.args[0], weekday(d.args[1]), weekday(d.args[2]))
    if d.op == 'unk':
        return d
    if d.op == 'dateof':
        return mk('weekday', d.args[0])
    its = tm._poly_items(d)
    # separate a date base (coefficient one) from integral offsets
    base, off = ZERO, ZERO
    for m, c in its.items():
        t = tm._from_items({m: c})
        if c == 1 and len(m) == 1 and m[0][1] == 1 and lin.is_date_atom(m[0][0]):
            base = add(base, t)
        else:
            off = add(off, t)
    if base is not ZERO and lin.is_int_term(off):
        if off is ZERO:
            return mk('weekday', base)
        return mod(add(mk('weekday', base), off), num(7))
    if base is not ZERO and off.op == 'num':
        fl = off.args[0].__floor__()
        if lin.is_int_term(base):
            return weekday(add(base, num(fl)))
    return mk('weekday', d)


def mod(x, c):
    if x.op == 'unk':
        return x
    if x.op == 'ite':
        return ite(x.args[0], mod(x.args[1], c), mod(x.args[2], c))
    if c.op == 'ite':
        return ite(c.args[0], mod(x, c.args[1]), mod(x, c.args[2]))
    if c.op == 'num' and c.args[0] != 0:
        cv = c.args[0]
        if x.op == 'num':
            return num(x.args[0] - cv * (x.args[0] / cv).__floor__())
        if lin.is_int_term(x) and cv.denominator == 1:
            its = tm._poly_items(x)
            # mod(mod(y,c)+z, c)
            exp = ZERO
            changed = False
            for m, k in its.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'mod' and m[0][0].args[1] is c:
                    exp = add(exp, scale(m[0][0].args[0], k))
                    changed = True
                else:
                    exp = add(exp, tm._from_items({m: k}))
            if changed:
                return mod(exp, c)
            red = tm._from_items({m: (k % cv if (m == () or k % cv == 0 or abs(k) >= cv) else k) for m, k in its.items()})
            if red is not x:
                return mod(red, c)
            if x.op in lin.DOMAIN:
                lo, hi = lin.DOMAIN[x.op]
                if lo is not None and hi is not None and lo >= 0 and hi < cv:
                    return x
    return mk('mod', x, c)


def floordiv(x, c):
    if x.op == 'ite':
        return ite(x.args[0], floordiv(x.args[1], c), floordiv(x.args[2], c))
    if x.op == 'num' and c.op == 'num' and c.args[0] != 0:
        return num((x.args[0] / c.args[0]).__floor__())
    return div(sub(x, mod(x, c)), c)


def split_rd(r):
    """(days, months-ish rest) of a relativedelta combination"""
    days, rest = ZERO, ZERO
    for m, c in tm._poly_items(r).items():
        if any(a is _i.DAY for a, e in m):
            days = add(days, tm._from_items({tuple((a, e) for a, e in m if a is not _i.DAY): c}))
        else:
            rest = add(rest, tm._from_items({m: c}))
    return days, rest


def months_of(rest):
    """the whole number of months of a relativedelta without days, or None"""
    out = ZERO
    for m, c in tm._poly_items(rest).items():
        us = [(a, e) for a, e in m if a.op == 'sym' and a.args[0] in ('%month', '%year')]
        if len(us) != 1 or us[0][1] != 1:
            return None
        q = tuple(x for x in m if x[0] is not us[0][0])
        out = add(out, tm._from_items({q: c * (12 if us[0][0].args[0] == '%year' else 1)}))
    return out if lin.is_int_term(out) else None


def dateadd(d, r):
    if d.op == 'unk':
        return d
    if r.op == 'unk':
        return r
    if d.op == 'ite':
        return ite(d.args[0], dateadd(d.args[1], r), dateadd(d.args[2], r))
    if r.op == 'ite':
        return ite(r.args[0], dateadd(d, r.args[1]), dateadd(d, r.args[2]))
    days, rest = split_rd(r)
    if rest.op == 'num' and rest.args[0] == 0:
        return add(d, days)
    if d.op == 'mkdate' and d.args[2].op == 'num' and d.args[2].args[0] <= 28:
        n = months_of(rest)
        if n is not None and n.op == 'num':
            if n.args[0] % 12 == 0:
                return add(mkdate(add(d.args[0], num(n.args[0] / 12)), d.args[1], d.args[2]), days)
            if d.args[1].op == 'num':
                k = d.args[1].args[0] - 1 + n.args[0]
                return add(mkdate(add(d.args[0], num((k / 12).__floor__())), num(k % 12 + 1), d.args[2]), days)
    return add(mk('dateadd', d, rest), days)


tm.MOD = mod
REBUILD['mkdate'] = mkdate
REBUILD['dateof'] = dateof
REBUILD['weekday'] = weekday
REBUILD['mod'] = mod
REBUILD['dateadd'] = dateadd
REBUILD['lastday'] = lastday
for _f in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'):
    REBUILD[_f] = (lambda d, _f=_f: field(_f, d))


# ------------------------------------------------------------------ arrays
def rows_of(t):
    """element list of an explicit array (None when opaque)"""
    if t.op == 'arr':
        s = norm_seq(t.args[0])
        return list(s.args) if s.op == 'list' else None
    return None


def as_arr(t):
    """normal form arr(list(...)) with nested rows as plain lists"""
    if t.op == 'arr':
        return t
    if t.op in ('list', 'tuple'):
        return mk('arr', mk('list', *[_row(x) for x in t.args]))
    if t.op in ('comp', 'concat', 'filt', 'flat') or t.op == 'ite' and nd.isseq(t):
        return mk('arr', nd.strip(t))
    return t


def _row(x):
    if x.op == 'arr':
        return x.args[0]
    if x.op == 'tuple':
        return mk('list', *[_row(y) for y in x.args])
    if x.op == 'list':
        return mk('list', *[_row(y) for y in x.args])
    return x


def ew(a, b, f):
    """elementwise with broadcasting on explicit arrays"""
    ra = a.op == 'arr' or a.op in ('list',)
    rb = b.op == 'arr' or b.op in ('list',)
    if not ra and not rb:
        return f(a, b)
    if a.op == 'ite':
        return ite(a.args[0], ew(a.args[1], b, f), ew(a.args[2], b, f))
    if b.op == 'ite':
        return ite(b.args[0], ew(a, b.args[1], f), ew(a, b.args[2], f))
    la = nd_list(a) if ra else None
    lb = nd_list(b) if rb else None
    if ra and la is None or rb and lb is None:
        return nd.combine(a, b, f)
    if ra and not plain(la) or rb and not plain(lb):
        return nd.combine(a, b, f)
    return mk('arr', _ew(la, lb, a, b, f))


def plain(s):
    """explicit along every axis"""
    return s.op == 'list' and all(plain(x) if x.op == 'list' else not nd.isseq(x) for x in s.args)


def nd_list(t):
    s = norm_seq(t.args[0]) if t.op == 'arr' else t
    return s if s.op == 'list' else None


def _depth(s):
    d = 0
    while s is not None and s.op == 'list':
        d += 1
        s = s.args[0] if s.args else None
    return d


def _ew(la, lb, a, b, f):
    if la is None and lb is None:
        return f(a, b)
    if la is None:
        return mk('list', *[_ew(None, y if y.op == 'list' else None, a, y, f) for y in lb.args])
    if lb is None:
        return mk('list', *[_ew(x if x.op == 'list' else None, None, x, b, f) for x in la.args])
    da, db = _depth(la), _depth(lb)
    if da > db:
        return mk('list', *[_ew(x, lb, x, lb, f) for x in la.args])
    if db > da:
        return mk('list', *[_ew(la, y, la, y, f) for y in lb.args])
    n = max(len(la.args), len(lb.args))
    if len(la.args) != len(lb.args) and 1 not in (len(la.args), len(lb.args)):
        return unk('array shapes do not match')
    out = []
    for k in range(n):
        x = la.args[k if len(la.args) > 1 else 0]
        y = lb.args[k if len(lb.args) > 1 else 0]
        out.append(_ew(x if x.op == 'list' else None, y if y.op == 'list' else None, x, y, f))
    return mk('list', *out)


def map_arr(a, f):
    if a.op == 'ite':
        return ite(a.args[0], map_arr(a.args[1], f), map_arr(a.args[2], f))
    if a.op == 'arr':
        s = norm_seq(a.args[0])
        return nd.apply(a, f)
    if a.op == 'list':
        return map_arr(as_arr(a), f)
    return f(a)


def matmul(a, b):
    a2, b2 = as_arr(a), as_arr(b)
    la, lb = nd_list(a2) if a2.op == 'arr' else None, nd_list(b2) if b2.op == 'arr' else None
    if la is not None and lb is not None and la.args and lb.args and plain(la) and plain(lb):
        am, bm = la.args[0].op == 'list', lb.args[0].op == 'list'
        A = [list(r.args) for r in la.args] if am else [list(la.args)]
        B = [list(r.args) for r in lb.args] if bm else [[x] for x in lb.args]
        if any(len(r) != len(B) for r in A):
            return unk('matrix shapes do not match')
        if all(x.op != 'list' for r in A + B for x in r):
            res = [[add(*[mul(A[i][k], B[k][j]) for k in range(len(B))]) for j in range(len(B[0]))] for i in range(len(A))]
            if am and bm:
                return mk('arr', mk('list', *[mk('list', *r) for r in res]))
            if am:
                return mk('arr', mk('list', *[r[0] for r in res]))
            if bm:
                return mk('arr', mk('list', *res[0]))
            return res[0][0]
    if a2.op == 'arr' and b2.op == 'arr':
        r = nd.product(a2, b2)
        if r is not None:
            return r
    return mm(a, b)


def mm(a, b):
    """opaque matrix product: distributes over sums and scalars"""
    tot = ZERO
    for m1, c1 in tm._poly_items(a).items():
        for m2, c2 in tm._poly_items(b).items():
            s1, x1 = _split_scalar(m1)
            s2, x2 = _split_scalar(m2)
            tot = add(tot, mul(num(c1 * c2), s1, s2, mk('mm', x1, x2)))
    return tot


def _split_scalar(m):
    sc, ar = ONE, ONE
    I = Lib.I
    for a, e in m:
        t = tm._from_items({((a, e),): Fraction(1)})
        if a.op in ('arr', 'mm', 'T') or I.ty(a) in ('ndarray',) or a.op in ('call', 'attr', 'at'):
            ar = mul(ar, t) if ar is not ONE else t
        else:
            sc = mul(sc, t)
    return sc, ar


def transpose(a):
    a = as_arr(a)
    if a.op == 'T':
        return a.args[0]
    l = nd_list(a) if a.op == 'arr' else None
    if l is not None and l.args and plain(l) and all(r.op == 'list' for r in l.args):
        n = len(l.args[0].args)
        return mk('arr', mk('list', *[mk('list', *[r.args[k] for r in l.args]) for k in range(n)]))
    if a.op == 'arr':
        return nd.turned(a)
    return mk('T', a)


REBUILD['mm'] = mm
REBUILD['T'] = transpose


def arr_sum(a, axis=None):
    l = nd_list(as_arr(a)) if as_arr(a).op == 'arr' else None
    if l is None:
        if a.op == 'arr':
            return nd.total(a, axis)
        return mk('call', mk('pyfn', 'numpy.sum'), a)
    if not plain(l):
        return nd.total(a, axis)
    if axis is None:
        return add(*[arr_sum(mk('arr', x)) if x.op == 'list' else x for x in l.args]) if l.args else ZERO
    if l.args and l.args[0].op == 'list':
        if axis == 0:
            return mk('arr', mk('list', *[add(*[r.args[k] for r in l.args]) for k in range(len(l.args[0].args))]))
        return mk('arr', mk('list', *[add(*r.args) for r in l.args]))
    return add(*l.args)


EXPLICIT_MAX = 16


class Lib:
    I = None
    BUILTINS = {'abs', 'all', 'any', 'bool', 'callable', 'dict', 'divmod', 'enumerate', 'filter', 'float', 'format', 'frozenset', 'getattr',
                'hasattr', 'hash', 'id', 'int', 'isinstance', 'issubclass', 'iter', 'len', 'list', 'map', 'max', 'min', 'next', 'object',
                'pow', 'print', 'range', 'repr', 'reversed', 'round', 'set', 'setattr', 'slice', 'sorted', 'str', 'sum', 'tuple', 'type',
                'zip', 'NotImplemented', 'Ellipsis', 'property', 'staticmethod', 'classmethod', 'super', 'vars', 'dir', 'input', 'open',
                'complex', 'bytes', 'chr', 'ord', 'delattr', 'memoryview', '__name__', '__file__', 'assume', 'ASSUME'}

    def __init__(self, interp):
        self.i = interp
        Lib.I = interp

    # -------------------------------------------------------------- arithmetic
    def val(self, v, st):
        """array content of a reference, otherwise the value"""
        if v.op == 'ref':
            o = self.i.obj(st, v)
            if o[0] == 'list' and o[1].op == 'arr':
                return o[1]
        return v

    def is_arr(self, v):
        return v.op == 'arr' or v.op in ('mm', 'T') or self.i.ty(v) == 'ndarray'

    def neg(self, x, st):
        x = self.val(x, st)
        if x.op == 'ref':
            fi = self.user(x, '__neg__', st)
            if fi is not None:
                return self.i.call_fn(fi, [x], {}, st)
            return self.i.fail(st, 'TypeError')
        if x.op == 'arr':
            return map_arr(x, neg)
        if x is NONE:
            return self.i.fail(st, 'TypeError')
        return neg(x)

    def user(self, v, name, st):
        c = self.classof(v, st)
        return c.find(name) if c is not None else None

    def classof(self, v, st):
        if v.op == 'ref':
            o = self.i.obj(st, v)
            return self.i.cls(o[1]) if o[0] == 'inst' else None
        if v.op in ('rec', 'inst', 'enum'):
            return self.i.cls(v.args[0])
        return None

    def binop(self, op, a, b, st, ctx):
        I = self.i
        if st.dead:
            return mk('raise', 'dead')
        if a.op == 'unk':
            return a
        if b.op == 'unk':
            return b
        if a.op == 'raise' or b.op == 'raise':
            return a if a.op == 'raise' else b
        if op in DUNDER:
            fi = self.user(a, DUNDER[op][0], st)
            if fi is not None:
                r = I.call_fn(fi, [a, b], {}, st)
                if not (r.op == 'pyfn' and r.args[0] == 'NotImplemented'):
                    return r
            fi = self.user(b, DUNDER[op][1], st)
            if fi is not None:
                return I.call_fn(fi, [b, a], {}, st)
        a0, b0 = a, b
        a, b = self.val(a, st), self.val(b, st)
        if a is NONE or b is NONE:
            return I.fail(st, 'TypeError')
        # sequences
        if op == 'Add':
            ka, kb = self.seqkind(a, st), self.seqkind(b, st)
            if ka and ka == kb:
                if ka == 'tuple':
                    r = concat(norm_seq(a), norm_seq(b))
                    return mk('tuple', *r.args) if r.op == 'list' else r
                if ka == 'list':
                    return I.alloc(st, ('list', concat(norm_seq(I.content(a, st)), norm_seq(I.content(b, st)))))
                if ka == 'str':
                    if a.op == 'const' and b.op == 'const':
                        return const(a.args[0] + b.args[0])
                    return mk('fstr', a, b)
            if (ka or kb) and not (self.is_arr(a) or self.is_arr(b)) and ka != kb and (ka in ('list', 'tuple', 'str') or kb in ('list', 'tuple', 'str')):
                if ka and kb or a.op in ('num',) or b.op in ('num',):
                    return I.fail(st, 'TypeError')
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                k = self.seqkind(x, st)
                if k and not self.is_arr(x) and not self.is_arr(y):
                    n = as_int(y)
                    c = norm_seq(I.content(x, st))
                    if n is not None and c.op == 'list':
                        r = mk('list', *(list(c.args) * max(n, 0)))
                        return I.alloc(st, ('list', r)) if k == 'list' else mk('tuple', *r.args)
                    if c.op == 'list' and len(c.args) == 1 and k == 'list':
                        return I.alloc(st, ('list', comp(y, lambda i: c.args[0])))
                    return unk('sequence repetition')
        if op in ('BitOr', 'BitAnd', 'BitXor', 'Sub') and self.is_set(a, st) and self.is_set(b, st):
            return I.alloc(st, ('set', self.setop(op, self.set_content(a, st, ctx), self.set_content(b, st, ctx))))
        if op == 'BitOr' and self.is_dict(a, st):
            return I.alloc(st, ('dict', self.dict_update(I.content(a, st), I.content(b, st), st)))
        if a.op in ('ref', 'dict', 'enum', 'fn', 'clo', 'cls', 'bm', 'setof') or b.op in ('ref', 'dict', 'enum', 'fn', 'clo', 'cls', 'bm', 'setof'):
            if op in ('BitOr',) and (a.op in ('cls', 'pyfn') or b.op in ('cls', 'pyfn')):
                return mk('pyfn', 'typing.Union')
            if self.is_arr(a) or self.is_arr(b):
                a, b = self._arrish(a, st), self._arrish(b, st)
            else:
                return I.fail(st, 'TypeError')
        # dates
        ta, tb = I.ty(a), I.ty(b)
        if op in ('Add', 'Sub') and (tb == 'rd' and ta != 'rd' or ta == 'rd' and tb != 'rd'):
            if tb == 'rd':
                return dateadd(a, b if op == 'Add' else neg(b))
            if op == 'Add':
                return dateadd(b, a)
        if ta in ('date', 'datetime') and tb in ('date', 'datetime') and op == 'Add':
            return I.fail(st, 'TypeError')
        if op == 'MatMult':
            return matmul(self._arrish(a, st), self._arrish(b, st))
        f = self._num(op, st)
        if f is None:
            return unk('operator ' + op)
        if a.op == 'arr' or b.op == 'arr':
            return ew(self._arrish(a, st), self._arrish(b, st), f)
        if a.op == 'const' and isinstance(a.args[0], str) and op == 'Mod':
            return mk('fstr', a, b)
        r = f(a, b)
        return r

    def _arrish(self, v, st):
        if v.op == 'ref':
            o = self.i.obj(st, v)
            if o[0] == 'list':
                return as_arr(self.i.freeze(o[1], st))
        return as_arr(v) if v.op in ('list', 'tuple') else v

    def _num(self, op, st):
        if op == 'Add':
            return add
        if op == 'Sub':
            return sub
        if op == 'Mult':
            return mul
        if op == 'Div':
            def dv(x, y):
                if y.op == 'num' and y.args[0] == 0:
                    return self.i.fail(st, 'ZeroDivisionError')
                return div(x, y)
            return dv
        if op == 'Pow':
            return power
        if op == 'FloorDiv':
            return floordiv
        if op == 'Mod':
            return mod
        return None

    def seqkind(self, v, st):
        if v.op == 'ref':
            o = self.i.obj(st, v)
            return 'list' if o[0] == 'list' and o[1].op != 'arr' else None
        if v.op == 'tuple':
            return 'tuple'
        if v.op in ('list', 'comp', 'filt', 'flat', 'concat', 'sortedk', 'slice'):
            return 'list'
        if v.op == 'const' and isinstance(v.args[0], str) and not v.args[0].endswith('#'):
            return 'str'
        if v.op in ('fstr', 'str'):
            return 'str'
        t = self.i.ty(v)
        if t and t.startswith('seq'):
            return 'list'
        if t == 'str':
            return 'str'
        return None

    def is_set(self, v, st):
        if v.op == 'ref':
            return self.i.obj(st, v)[0] == 'set'
        return v.op == 'setof' or v.op == 'setop'

    def is_dict(self, v, st):
        if v.op == 'ref':
            return self.i.obj(st, v)[0] == 'dict'
        return v.op in ('dict', 'dset', 'dictcomp')

    # -------------------------------------------------------------- comparison
    def compare(self, op, a, b, st, ctx):
        I = self.i
        if a.op == 'unk':
            return a
        if b.op == 'unk':
            return b
        if a.op == 'raise' or b.op == 'raise':
            return a if a.op == 'raise' else b
        if op == 'Is':
            return self.identical(a, b, st)
        if op == 'Eq':
            return self.equal(a, b, st, ctx)
        if op == 'In':
            return self.contains_(a, b, st, ctx)
        n1, n2 = CMP[op]
        fi = self.user(a, n1, st)
        if fi is not None:
            return I.call_fn(fi, [a, b], {}, st)
        fi = self.user(b, n2, st)
        if fi is not None:
            return I.call_fn(fi, [b, a], {}, st)
        a, b = self.val(a, st), self.val(b, st)
        if a is NONE or b is NONE:
            return I.fail(st, 'TypeError')
        if a.op == 'rec' and self.i.cls(a.args[0]).is_namedtuple:
            a = mk('tuple', *a.args[1:])
        if b.op == 'rec' and self.i.cls(b.args[0]).is_namedtuple:
            b = mk('tuple', *b.args[1:])
        if a.op == 'tuple' and b.op == 'tuple':
            res = {'Lt': FALSE, 'Gt': FALSE, 'LtE': TRUE, 'GtE': TRUE}[op]
            strict = 'Lt' if op in ('Lt', 'LtE') else 'Gt'
            for x, y in reversed(list(zip(a.args, b.args))):
                e = self.equal(x, y, st, ctx)
                res = ite(e, res, TRUE if False else self.compare(strict, x, y, st, ctx) if x is not y else FALSE)
            return res
        if self.is_set(a, st) and self.is_set(b, st):
            return unk('set inclusion comparison')
        if a.op in ('ref', 'enum', 'rec', 'cls', 'fn', 'clo', 'dict', 'bm') or b.op in ('ref', 'enum', 'rec', 'cls', 'fn', 'clo', 'dict', 'bm'):
            if a.op == 'ref' and I.obj(st, a)[0] == 'list' or b.op == 'ref' and I.obj(st, b)[0] == 'list':
                return unk('sequence comparison')
            return I.fail(st, 'TypeError')
        if (a.op == 'const' and isinstance(a.args[0], str)) or (b.op == 'const' and isinstance(b.args[0], str)):
            # +-inf
            for x, y, fl in ((a, b, False), (b, a, True)):
                if x.op == 'const' and x.args[0] in ('inf#', '-inf#') and y.op in ('num', 'poly', 'sym', 'at', 'call'):
                    big = x.args[0] == 'inf#'
                    lt_ = (not big) != fl      # a < b ?
                    return boolc(lt_ if op in ('Lt', 'LtE') else not lt_)
            return mk('truth', mk('cmp', const(op), a, b))
        if a.op == 'arr' or b.op == 'arr':
            r = ew(a, b, lambda x, y: unk('array comparison') if x.op == 'const' or y.op == 'const' else lt(x, y) if op == 'Lt' else lt(y, x) if op == 'Gt' else not_(lt(y, x)) if op == 'LtE' else not_(lt(x, y)))
            if r.op == 'arr' and not any(x.op == 'unk' for x in (r.args[0],)):
                l = nd_list(r)
                if l is not None and plain(l):
                    return r
            return unk('array comparison')
        if op == 'Lt':
            return lt(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'LtE':
            return not_(lt(b, a))
        return not_(lt(a, b))

    def identical(self, a, b, st):
        if a is b:
            return TRUE
        if a.op == 'ref' or b.op == 'ref':
            if a.op == 'ref' and b.op == 'ref' or a is NONE or b is NONE:
                return FALSE
            return FALSE if (a.op in ('num', 'const', 'enum', 'rec', 'sym') or b.op in ('num', 'const', 'enum', 'rec', 'sym')) else unk('identity')
        if a is TRUE or a is FALSE or b is TRUE or b is FALSE:
            c, v = (a, b) if (a is TRUE or a is FALSE) else (b, a)
            if self.i.is_bool(v):
                return v if c is TRUE else not_(v)
            if v.op == 'num' or v is NONE:
                return FALSE
        if a is NONE or b is NONE:
            ty = self.i.ty(b if a is NONE else a)
            if ty in ('date', 'datetime', 'num', 'int', 'pos', 'str', 'bool', 'float', 'ndarray', 'seq', 'rd') or ty and ty.split(':')[0] in ('seq', 'obj', 'dict', 'fn', 'enum', 'rec'):
                return FALSE
        return eq(a, b)

    def equal(self, a, b, st, ctx, depth=0):
        I = self.i
        if a.op == 'ite':
            return I.dist(a, st, lambda x, s: self.equal(x, b, s, ctx, depth))
        if b.op == 'ite':
            return I.dist(b, st, lambda y, s: self.equal(a, y, s, ctx, depth))
        if a is b and a.op != 'ref':
            return TRUE if a.op != 'unk' else a
        fi = self.user(a, '__eq__', st)
        if fi is not None:
            r = I.call_fn(fi, [a, b], {}, st)
            if not (r.op == 'pyfn' and r.args[0] == 'NotImplemented'):
                return I.truth(r, st)
            fi = None
        fi = self.user(b, '__eq__', st)
        if fi is not None and not self.user(a, '__eq__', st):
            r = I.call_fn(fi, [b, a], {}, st)
            if not (r.op == 'pyfn' and r.args[0] == 'NotImplemented'):
                return I.truth(r, st)
        if a is b:
            return TRUE
        if a.op == 'ref' or b.op == 'ref':
            oa = I.obj(st, a) if a.op == 'ref' else None
            ob = I.obj(st, b) if b.op == 'ref' else None
            ka = oa[0] if oa else None
            kb = ob[0] if ob else None
            if oa and oa[0] == 'list' and oa[1].op == 'arr' or ob and ob[0] == 'list' and ob[1].op == 'arr':
                return unk('array equality')
            if ka == 'inst' and kb == 'inst':
                if oa[1] == ob[1] and self.i.cls(oa[1]).is_dataclass and 'eq' not in ():
                    cs = [self.equal(oa[2].get(k, NONE), ob[2].get(k, NONE), st, ctx, depth + 1) for k in [f[0] for f in self.i.cls(oa[1]).fields()]]
                    return and_(*[I.truth(c, st) for c in cs])
                return FALSE
            va = oa[1] if oa and ka != 'inst' else a
            vb = ob[1] if ob and kb != 'inst' else b
            if ka == 'inst' or kb == 'inst':
                other = vb if ka == 'inst' else va
                return FALSE if other.op in ('num', 'const', 'enum', 'rec', 'list', 'dict', 'tuple', 'poly') or other is NONE else unk('equality with an object')
            if ka in ('list', None) and kb in ('list', None):
                if ka and kb is None and vb.op in ('num', 'const', 'enum', 'rec', 'tuple', 'poly') or kb and ka is None and va.op in ('num', 'const', 'enum', 'rec', 'tuple', 'poly'):
                    return FALSE
                return self.seq_eq(va, vb, st, ctx, depth)
            if ka == 'dict' and kb == 'dict':
                if va.op == 'dict' and vb.op == 'dict':
                    if len(va.args) != len(vb.args):
                        return FALSE
                    if va.args[0::2] == vb.args[0::2]:
                        return and_(*[self.equal(x, y, st, ctx, depth + 1) for x, y in zip(va.args[1::2], vb.args[1::2])])
                return mk('eq', *sorted((I.freeze(va, st), I.freeze(vb, st)), key=lambda t: t.uid)) if va is not vb else TRUE
            if ka == 'set' and kb == 'set':
                x, y = I.freeze(va, st), I.freeze(vb, st)
                return TRUE if x is y else mk('seteq', *sorted((x, y), key=lambda t: t.uid))
            return FALSE
        if a.op in ('tuple', 'list', 'concat', 'comp', 'sortedk', 'filt', 'flat') and b.op in ('tuple', 'list', 'concat', 'comp', 'sortedk', 'filt', 'flat'):
            return self.seq_eq(a, b, st, ctx, depth)
        if a.op == 'rec' and b.op == 'rec':
            if a.args[0] != b.args[0]:
                return FALSE
            return and_(*[self.equal(x, y, st, ctx, depth + 1) for x, y in zip(a.args[1:], b.args[1:])])
        ta, tb = I.ty(a), I.ty(b)
        # a datetime never equals a date
        if {ta, tb} == {'date', 'datetime'} and (self.pure_date(a) or self.pure_date(b)):
            return FALSE
        return eq(a, b)

    def pure_date(self, t):
        return True

    def seq_eq(self, a, b, st, ctx, depth):
        a, b = norm_seq(a), norm_seq(b)
        if a is b:
            return TRUE
        if a.op == 'list' and b.op == 'list':
            if len(a.args) != len(b.args):
                return FALSE
            return and_(*[self.i.truth(self.equal(x, y, st, ctx, depth + 1), st) for x, y in zip(a.args, b.args)])
        na, nb = slen(a), slen(b)
        d = sub(na, nb)
        if d.op == 'num' and d.args[0] != 0:
            return FALSE
        ia, ib = indexable(a), indexable(b)
        if ia and ib:
            i = fresh('i')
            return and_(zero(d), not_(exists_(na, i, not_(eq(ia[1](i), ib[1](i))))))
        return mk('eq', *sorted((a, b), key=lambda t: t.uid))

    def contains_(self, x, c, st, ctx):
        I = self.i
        fi = self.user(c, '__contains__', st)
        if fi is not None:
            return I.truth(I.call_fn(fi, [c, x], {}, st), st)
        if c is NONE:
            return I.fail(st, 'TypeError')
        if c.op == 'ref' and I.obj(st, c)[0] == 'inst' or c.op == 'inst':
            s = I.iter_seq(c, st, ctx)
            if st.dead:
                return FALSE
            return self.member_seq(x, s, st, ctx)
        v = I.content(c, st)
        if v.op in ('dict', 'dset', 'dictcomp'):
            x = self.hash_key(v, x, st)
            if st.dead:
                return FALSE
            return member(x, v if v.op != 'dictcomp' else dkeys(v))
        if v.op == 'const' and isinstance(v.args[0], str) and x.op == 'const' and isinstance(x.args[0], str):
            return boolc(x.args[0] in v.args[0])
        ty = I.ty(v)
        if ty and ty.startswith('dict'):
            return mk('in', x, v)
        if v.op in ('iter', 'itemsview', 'setof'):
            v = v.args[0]
        if v.op == 'cls':
            v = I.iter_seq(v, st, ctx)
        return self.member_seq(x, v, st, ctx)

    def member_seq(self, x, s, st, ctx):
        s = norm_seq(s)
        if s.op == 'list':
            r = FALSE
            for e in reversed(s.args):
                r = ite(self.i.truth(self.equal(x, e, st, ctx), st), TRUE, r)
            return r
        tx = self.i.ty(x)
        te = self.i.elem_ty(s)
        if tx == 'datetime' and te == 'date':
            return FALSE
        return member(x, s)

    # -------------------------------------------------------------- containers
    def dict_from_pairs(self, pairs, st):
        pairs = norm_seq(pairs)
        if pairs.op == 'unk':
            return pairs
        if pairs.op == 'list':
            d = mk('dict')
            for p in pairs.args:
                p = self.i.content(p, st)
                d = dset(d, at(p, ZERO), at(p, ONE))
            return d
        if pairs.op == 'ite':
            return ite(pairs.args[0], self.dict_from_pairs(pairs.args[1], st), self.dict_from_pairs(pairs.args[2], st))
        parts = seq_parts(pairs)
        d = mk('dict')
        for p in parts:
            if p[0] == 'e':
                d = dset(d, at(p[1], ZERO), at(p[1], ONE))
            elif p[0] == 'm' and d.op == 'dict' and not d.args:
                i = fresh('i')
                e = p[2](i)
                d = seqs.dictcomp_b([i], [p[3](i) if p[3] else TRUE, at(e, ZERO), at(e, ONE)], [p[1]])
            else:
                return unk('dictionary construction')
        return d

    def dict_update(self, d, other, st):
        if other.op == 'dict':
            for k, v in zip(other.args[0::2], other.args[1::2]):
                d = dset(d, k, v)
            return d
        if d.op == 'dict' and not d.args:
            return other
        return unk('dictionary update')

    def delitem(self, v, k, st, ctx):
        I = self.i
        if v.op == 'ref':
            o = I.obj(st, v)
            if o[0] == 'inst':
                fi = I.cls(o[1]).find('__delitem__')
                if fi is None:
                    I.fail(st, 'TypeError')
                    return
                I.call_fn(fi, [v, k], {}, st)
                return
            if o[0] == 'list':
                s = norm_seq(o[1])
                if k.op == 'slicev' and s.op != 'arr':
                    I.setitem(v, k, EMPTY, st, ctx)
                    return
                if s.op == 'list' and as_int(k) is not None:
                    l = list(s.args)
                    del l[as_int(k)]
                    st.heap[v.args[0]] = ('list', mk('list', *l))
                    return
                if as_int(k) is not None:
                    j = as_int(k)
                    n = slen(s)
                    if j == 0:
                        st.heap[v.args[0]] = ('list', sslice(s, ONE, NONE, NONE))
                        return
                    if j == -1:
                        st.heap[v.args[0]] = ('list', sslice(s, ZERO, num(-1), NONE))
                        return
            if o[0] == 'dict':
                d = o[1]
                if d.op == 'dict':
                    items = []
                    for kk, vv in zip(d.args[0::2], d.args[1::2]):
                        e = eq(kk, k)
                        if e is TRUE:
                            continue
                        if e is not FALSE:
                            raise _i.Undecided('dictionary deletion')
                        items += [kk, vv]
                    st.heap[v.args[0]] = ('dict', mk('dict', *items))
                    return
        raise _i.Undecided('del')

    def set_content(self, v, st, ctx):
        I = self.i
        if v.op == 'ref' and I.obj(st, v)[0] == 'set':
            return I.obj(st, v)[1]
        if v.op == 'setof':
            return v.args[0]
        if v.op == 'setop':
            return v
        return I.iter_seq(v, st, ctx)

    def setop(self, op, a, b):
        sy = {'BitOr': '|', 'BitAnd': '&', 'Sub': '-', 'BitXor': '^'}[op]
        if a.op == 'unk':
            return a
        if b.op == 'unk':
            return b
        if sy == '|':
            if a is EMPTY:
                return b
            if b is EMPTY:
                return a
            if a.op != 'setop' and b.op != 'setop':
                return concat(a, b)
        return mk('setop', sy, a, b)

    def same_object(self, a, b, st, ctx=None):
        """whether a set takes b for a"""
        if a.op == 'ref' and b.op == 'ref':
            if a is b:
                return TRUE
            c = self.classof(a, st)
            if c is None or c.find('__eq__') is None:
                return FALSE if c is None or not (c.is_dataclass or c.is_namedtuple) else unk('hashing records')
            if c.find('__hash__') is None:
                return self.i.fail(st, 'TypeError')
            return self.i.truth(self.equal(a, b, st, ctx), st)
        return eq(a, b)

    def hash_key(self, d, k, st):
        """the key under which a dictionary keeps k: the key it already has for an object equal to it"""
        if k.op == 'ite':
            return self.i.dist(k, st, lambda x, s: self.hash_key(d, x, s))
        if k.op == 'tuple':
            known = [e for e in self.known_keys(d) if e.op == 'tuple' and len(e.args) == len(k.args)]
            return mk('tuple', *[self.hash_part(x, [e.args[j] for e in known], st) for j, x in enumerate(k.args)])
        return self.hash_part(k, self.known_keys(d), st)

    def known_keys(self, d):
        out = []
        while d.op == 'dset':
            out.append(d.args[1])
            d = d.args[0]
        if d.op == 'ite':
            return out + self.known_keys(d.args[1]) + self.known_keys(d.args[2])
        if d.op == 'dict':
            out += d.args[0::2]
        return list(dict.fromkeys(out))

    def hash_part(self, x, known, st):
        if x.op != 'ref' or st.dead:
            return x
        if self.i.obj(st, x)[0] in ('list', 'dict', 'set'):
            return self.i.fail(st, 'TypeError')
        c = self.classof(x, st)
        if c is None or c.find('__eq__') is None and not c.is_dataclass or x in known:
            return x
        if c.is_dataclass or c.find('__hash__') is None:
            raise _i.Undecided('hashing records')
        for e in known:
            if e.op == 'ref':
                t = self.i.truth(self.equal(x, e, st, None), st)
                t = t if t in (TRUE, FALSE) else {True: TRUE, False: FALSE}.get(st.facts.decide(t), t)
                if t is TRUE:
                    return e
                if t is not FALSE:
                    raise _i.Undecided('hashing objects')
        return x

    def set_seq(self, content, st):
        """iteration order of a set is arbitrary: explicit sets are enumerated in reverse insertion order, symbolic ones stay opaque"""
        s = norm_seq(content)
        if s.op == 'list':
            out = []
            for e in s.args:
                dup = FALSE
                for x in out:
                    if x.op == 'ite' and x.args[1] is EMPTY:
                        dup = or_(dup, and_(not_(x.args[0]), self.same_object(x.args[2].args[0], e, st)))
                    else:
                        dup = or_(dup, self.same_object(x.args[0], e, st))
                d = st.facts.decide(dup)
                if d is True:
                    continue
                one = mk('list', e)
                out.append(one if d is False else ite(dup, EMPTY, one))
            return concat(*reversed(out))
        if s.op == 'sortedk':
            s = binder_parts(s)[2][0]
        if s.op == 'uniq':
            s = s.args[0]
        if s.op == 'setof':
            return s
        return mk('setof', s)

    def rows(self, s):
        s = norm_seq(s)
        if s.op == 'list':
            return mk('list', *[self.wrap_row(x) for x in s.args])
        return s

    def wrap_row(self, r):
        if r.op in ('list', 'comp', 'concat') or r.op == 'sym' and nd.isseq(r):
            return mk('arr', r)
        if r.op == 'ite':
            return ite(r.args[0], self.wrap_row(r.args[1]), self.wrap_row(r.args[2]))
        return r

    def nd_keys(self, k, st):
        ks = list(k.args) if k.op == 'tuple' else [k]
        for x in ks:
            if x.op in ('slicev', 'num', 'poly') or x is NONE or lin.is_int_atom(x) or self.i.ty(x) in ('int', 'num'):
                continue
            if __import__('os').environ.get('DBGK'): print('KEY', show(x)[:300])
            raise _i.Undecided('array index')
        return [x if x.op == 'slicev' or x is NONE else self.i.nonneg(x, st) for x in ks]

    def nd_index(self, s, k, st, ctx):
        ks = self.nd_keys(k, st)
        if sum(1 for x in ks if x is not NONE) > nd.rank(s) and not contains(s, lambda t: t.op == 'sym' and self.i.ty(t) == 'ndarray'):
            return self.i.fail(st, 'IndexError')
        cur = nd.index(s, ks)
        if cur.op == 'raise':
            return self.i.fail(st, cur.args[0])
        return self.wrap_row(cur)

    def nd_store(self, s, k, val, st, ctx):
        val = self.val(val, st)
        if val.op in ('ref', 'tuple', 'list'):
            val = self._arrish(val, st)
        r = nd.store(s, self.nd_keys(k, st), val)
        if r is None:
            raise _i.Undecided('array store')
        if r.op == 'raise':
            self.i.fail(st, r.args[0])
            return s
        if r.op == 'unk':
            raise _i.Undecided(r.args[0])
        return mk('arr', r)

    def str_item(self, v, k, st):
        if v.op == 'const' and as_int(k) is not None:
            s = v.args[0]
            if -len(s) <= as_int(k) < len(s):
                return const(s[as_int(k)])
            return self.i.fail(st, 'IndexError')
        if v.op == 'const' and k.op == 'slicev' and all(x is NONE or as_int(x) is not None for x in k.args):
            return const(v.args[0][slice(*[None if x is NONE else as_int(x) for x in k.args])])
        return mk('at', v, k)

    # -------------------------------------------------------------- types
    def isinstance_(self, v, c, st):
        I = self.i
        if v.op == 'ite':
            return ite(v.args[0], self.isinstance_(v.args[1], c, st), self.isinstance_(v.args[2], c, st))
        if v.op == 'unk':
            return v
        if c.op in ('tuple', 'list'):
            return or_(*[self.isinstance_(v, x, st) for x in c.args])
        if c.op == 'ref':
            return self.isinstance_(v, I.content(c, st), st)
        if c.op == 'unk':
            return c
        if c.op == 'cls':
            k = I.cls(c.args[0])
            kv = self.classof(v, st)
            if kv is not None:
                return boolc(k in kv.mro())
            ty = I.ty(v)
            if ty and ty.startswith('obj:'):
                d = I.p.find_class(ty[4:])
                if d is not None:
                    if k in d.mro():
                        return TRUE
                    if d in k.mro():
                        return mk('isinst', v, c)
                    return FALSE
            if v.op in ('num', 'const', 'poly', 'list', 'tuple', 'dict', 'ref') or v is NONE or ty in ('date', 'datetime', 'str', 'num', 'int', 'pos', 'bool'):
                return FALSE
            return mk('isinst', v, c)
        if c.op == 'pyfn':
            n = c.args[0]
            ty = I.ty(v)
            if ty in ('pos', 'nonneg') and n not in ('int', 'float', 'datetime.timedelta'):
                ty = 'num'
            if v is NONE:
                return boolc(n == 'object')
            if n == 'object':
                return TRUE
            if n in ('datetime.datetime',):
                if ty == 'datetime':
                    return TRUE
                if ty in ('date', 'num', 'int', 'str', 'pos') or v.op in ('ref', 'list', 'rec', 'enum', 'const', 'tuple'):
                    return FALSE
            if n == 'datetime.date':
                if ty in ('date', 'datetime'):
                    return TRUE
                if ty in ('num', 'int', 'str', 'pos') or v.op in ('ref', 'list', 'rec', 'enum', 'const', 'tuple'):
                    return FALSE
            if n == 'datetime.timedelta':
                if ty in ('num', 'int', 'float', 'pos', 'nonneg', 'pos_int'):
                    return TRUE
                if ty in ('date', 'datetime', 'str', 'rd', 'bool') or v.op in ('ref', 'list', 'rec', 'enum', 'const', 'tuple', 'fn', 'clo', 'cls'):
                    return FALSE
            if n == 'dateutil.relativedelta.relativedelta':
                if ty == 'rd':
                    return TRUE
                if ty is not None and not ty.startswith('Optional') or v.op in ('ref', 'list', 'rec', 'enum', 'const', 'tuple', 'fn', 'clo', 'cls'):
                    return FALSE
            if n in ('int', 'float', 'numbers.Number', 'numbers.Real'):
                if ty in ('date', 'datetime', 'str') or v.op in ('ref', 'list', 'rec', 'enum', 'tuple', 'fn', 'clo', 'cls'):
                    return FALSE
                if ty == 'int':
                    return boolc(n != 'float')
                if ty == 'float':
                    return boolc(n != 'int')
                if ty == 'pos_int':
                    return boolc(n != 'float')
                if ty in ('num', 'pos', 'nonneg') and n.startswith('numbers'):
                    return TRUE
                if ty in ('num', 'pos', 'nonneg') and n == 'float':
                    return not_(mk('isinst', v, mk('pyfn', 'int')))
            if n == 'str':
                if ty == 'str':
                    return TRUE
                if ty in ('date', 'datetime', 'num', 'int') or v.op in ('ref', 'list', 'rec', 'enum', 'tuple', 'num', 'poly'):
                    return FALSE
            if n == 'slice':
                if v.op == 'slicev':
                    return TRUE
                if ty in ('date', 'datetime', 'num', 'int', 'str', 'pos', 'bool') or v.op in ('num', 'poly', 'rec', 'enum', 'const', 'tuple', 'list', 'ref'):
                    return FALSE
            if n in ('list', 'dict', 'set'):
                if v.op == 'ref':
                    o = I.obj(st, v)
                    return boolc(o[0] == n and o[1].op != 'arr')
                if v.op in ('rec', 'num', 'enum', 'const', 'tuple', 'poly', 'arr') or ty in ('date', 'datetime', 'num', 'int', 'str'):
                    return FALSE
                if ty and ty.startswith('seq'):
                    return boolc(n == 'list')
                if ty and ty.startswith('dict'):
                    return boolc(n == 'dict')
            if n == 'tuple':
                if v.op == 'tuple' or v.op == 'rec' and I.cls(v.args[0]).is_namedtuple:
                    return TRUE
                if v.op in ('ref', 'num', 'enum', 'const', 'poly') or ty in ('date', 'datetime', 'num', 'int', 'str') or ty and ty.startswith('seq'):
                    return FALSE
            if n == 'numpy.ndarray':
                if v.op == 'ref':
                    o = I.obj(st, v)
                    return boolc(o[0] == 'list' and o[1].op == 'arr')
                if ty == 'ndarray':
                    return TRUE
                if ty in ('date', 'datetime', 'num', 'int', 'str', 'pos') or v.op in ('num', 'rec', 'enum', 'const', 'tuple', 'list'):
                    return FALSE
            if n.endswith('relativedelta'):
                if ty == 'rd':
                    return TRUE
                if ty in ('date', 'datetime', 'num', 'int', 'str'):
                    return FALSE
            if n.split('.')[-1] in ('Iterable', 'Sequence', 'Collection', 'Sized', 'Container'):
                if v.op in ('list', 'tuple', 'comp', 'dict') or v.op == 'ref' and I.obj(st, v)[0] in ('list', 'dict', 'set'):
                    return TRUE
                k = self.classof(v, st)
                if k is not None:
                    return boolc(k.find('__iter__') is not None)
                if v.op in ('num', 'poly', 'enum') or ty in ('date', 'datetime', 'num', 'int'):
                    return FALSE
            if n.split('.')[-1] == 'Callable':
                if v.op in ('fn', 'clo', 'bm', 'lam', 'partial', 'cls', 'pyfn'):
                    return TRUE
        return mk('isinst', v, c)

    def ext_attr(self, f, name):
        n = f.args[0]
        full = n + '.' + name
        if full in ('math.pi', 'numpy.pi'):
            return mk('sym', 'pi', 'pos')
        if full in ('math.inf', 'numpy.inf'):
            return num(float('inf'))
        if full in ('numpy.nan', 'math.nan'):
            return num(float('nan'))
        if full in ('datetime.time.min',):
            return ZERO
        if full in ('datetime.datetime.min', 'datetime.date.min'):
            return mkdate(ONE, ONE, ONE)
        return mk('pyfn', full)

    def value_attr(self, v, name, st, ctx):
        I = self.i
        op = v.op
        ty = I.ty(v)
        if op == 'call' and v.args[0].op == 'pyfn' and v.args[0].args[0] == 'scipy.optimize.root':
            return self.root_field(v, name)
        if op == 'call' and v.args[0].op == 'pyfn' and v.args[0].args[0] == 'scipy.optimize.minimize':
            return self.minimum_field(v, name)
        if op == 'dates':
            # an index of midnight timestamps; .date gives the plain dates
            return mk('arr', v.args[0]) if name == 'date' else mk('attr', v, name)
        if op == 'arr' or op in ('mm', 'T') or ty == 'ndarray':
            if name == 'T':
                return transpose(v)
            if name in ('shape', 'size', 'ndim'):
                return self.arr_shape(v, name)
            if name in ARR_M:
                return mk('meth', v, name)
            return mk('attr', v, name)
        if ty in ('date', 'datetime') or op in ('dateadd', 'mkdate', 'dateof'):
            if name in DATE_F:
                return field(name, v)
            if name in DATE_M:
                return mk('meth', v, name)
            if op != 'at':
                return I.fail(st, 'AttributeError')
        if ty == 'rd':
            if name in ('years', 'months', 'days', 'hours', 'minutes', 'seconds', 'weeks'):
                # every part carries the sign of the whole: at most 11 months, 23 hours, 59 minutes, 59 seconds
                d, r = split_rd(v)
                d = div(d, _i.DAY) if contains(d, lambda t: I.ty(t) == 'rd') else d
                if name in ('years', 'months') and (r.op in ('num', 'poly') or r is _i.MONTH):
                    m = as_int(div(r, _i.MONTH))
                    if m is not None:
                        q = abs(m) // 12 if name == 'years' else abs(m) % 12
                        return num(q if m >= 0 else -q)
                if name not in ('years', 'months'):
                    if d.op == 'num':
                        x = abs(d.args[0])
                        q = {'days': x, 'weeks': x / 7, 'hours': x % 1 * 24, 'minutes': x * 24 % 1 * 60, 'seconds': x * 1440 % 1 * 60}[name].__floor__()
                        return num(q if d.args[0] >= 0 else -q)
                    if name == 'days' and lin.is_int_term(d):
                        return d
            return mk('attr', v, name)
        if op in ('list', 'comp', 'filt', 'flat', 'concat', 'sortedk', 'slice', 'tuple') or ty and ty.startswith('seq'):
            if name in LIST_M:
                return mk('meth', v, name)
            return I.fail(st, 'AttributeError') if op != 'sym' else mk('attr', v, name)
        if op in ('dict', 'dset', 'dictcomp') or ty and ty.startswith('dict'):
            if name in DICT_M:
                return mk('meth', v, name)
            return I.fail(st, 'AttributeError')
        if op in ('setof', 'setop'):
            return mk('meth', v, name)
        if op == 'const' and isinstance(v.args[0], str) or op in ('fstr', 'str') or ty == 'str':
            return mk('meth', v, name)
        if op in ('num', 'poly', 'exp', 'pow') or ty in NUMTY:
            if name in ('days', 'seconds', 'microseconds'):
                if name == 'days':
                    return dateof(v)
                x = scale(sub(v, dateof(v)), 86400)
                whole = num(x.args[0].__floor__()) if x.op == 'num' else (x if lin.is_int_term(x) else mk('floor', x))
                return whole if name == 'seconds' else scale(sub(x, whole), 1_000_000)
            if name == 'total_seconds':
                return mk('meth', v, name)
            if name in ('real',):
                return v
            if name in ('shape', 'T', 'flatten', 'item', 'tolist'):
                return mk('attr', v, name)
            if name in ('year', 'month', 'day') and op == 'poly':
                return field(name, v)
            if name in DATE_M and op in ('poly',):
                return mk('meth', v, name)
            return I.fail(st, 'AttributeError')
        if op in ('fn', 'clo', 'lam', 'bm'):
            if name == '__name__':
                return const(v.args[1].split('.')[-1]) if op == 'fn' else const('<lambda>')
            return mk('attr', v, name)
        if op == 'exc':
            return mk('attr', v, name)
        if ty and ty.startswith('obj:'):
            c = I.p.find_class(ty[4:])
            if c is not None:
                if not self.class_has(c, name):
                    return I.fail(st, 'AttributeError')
                fi = c.find(name)
                if fi is not None and fi.kind == 'static':
                    return I.method_term(fi)
                if fi is not None and fi.kind == 'class':
                    return mk('bm', mk('cls', c.key), I.method_term(fi))
        return mk('attr', v, name)

    def class_has(self, c, name):
        """is `name` an attribute of instances of c or of a subclass of c?"""
        key = (c.key, name)
        cache = self.__dict__.setdefault('_has', {})
        if key not in cache:
            cache[key] = self._class_has(c, name)
        return cache[key]

    def _class_has(self, c, name):
        fam = list(c.mro())
        if any(b not in _i.KNOWN_BASES for k in fam for b in k.ext_bases()):
            return True
        for m in self.i.p.modules.values():
            for k in m.classes.values():
                if c in k.mro() and k not in fam:
                    fam.append(k)
        for k in fam:
            if name in k.methods or name in k.setters or name in k.attrs or any(a[0] == name for a in k.anns):
                return True
            for x in ast.walk(k.node):
                if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store):
                    return True
        return name.startswith('__') or (name in _i.MIXIN_METHODS)

    def arr_shape(self, v, name):
        if v.op != 'arr':
            return mk('attr', v, name)
        dims = nd.shape(v)
        if name == 'shape':
            return mk('tuple', *dims)
        if name == 'ndim':
            return num(len(dims))
        return mul(*dims)

    # -------------------------------------------------------------- external calls
    def ext_call(self, n, args, kwargs, st, ctx):
        I = self.i
        f = getattr(self, 'x_' + n.replace('.', '__'), None)
        if n in ('assume', 'ASSUME'):
            c = I.truth(args[0], st)
            if c.op == 'unk':
                raise _i.Undecided('assumption')
            st.facts = st.facts.add(c)
            return NONE
        if any(a.op == 'star' for a in args):
            s = [a for a in args if a.op == 'star'][0].args[0]
            if n == 'zip' and len(args) == 1:
                return unk('zip(*...)')
            if len(args) == 1 and n in ('max', 'min', 'sum', 'print', 'itertools.chain'):
                if n == 'itertools.chain':
                    return self.x_itertools__chain__from_iterable([s], kwargs, st, ctx)
                args = [s]
            else:
                return mk('call', mk('pyfn', n), *[I.freeze(a, st) for a in args])
        if any(a.op == 'unk' for a in args) and f is not None:
            return [a for a in args if a.op == 'unk'][0]
        if f is not None:
            return f(args, kwargs, st, ctx)
        if n in _i.BUILTIN_EXC:
            return mk('exc', n)
        if n == 'NotImplemented':
            return I.fail(st, 'TypeError')
        base = n.split('.')[-1]
        if n.startswith('object.'):
            return self.object_method(base, args, kwargs, st)
        if n.startswith('typing.') or n.startswith('abc.') or n in ('staticmethod', 'classmethod', 'property'):
            return args[0] if args else NONE
        if n.startswith('matplotlib') or n.startswith('warnings') or n == 'print' or n.startswith('logging') or n.startswith('tqdm'):
            return mk('call', mk('pyfn', n)) if n.startswith('matplotlib') else NONE
        m = n.split('.')
        # methods of builtin types called through the type: str.upper, dict.fromkeys, list.append, float.is_integer
        if len(m) == 2 and m[0] in PYTYPES and args:
            return self.method(args[0], m[1], args[1:], kwargs, st, ctx)
        fz = [I.freeze(a, st) for a in args]
        kz = [x for k in sorted(kwargs) for x in (const(k + '='), I.freeze(kwargs[k], st))]
        return mk('call', mk('pyfn', n), *fz, *kz)

    def x_scipy__optimize__root(self, a, k, st, ctx):
        """the root of the function; starting values (but for their number), method and tolerance only steer the search.
        Effects of the function on objects remain as its evaluation at the solver's last trial, an unspecified point, leaves them."""
        I = self.i
        k = dict(zip(('fun', 'x0', 'args'), a)) | k
        f, x0 = k.get('fun'), k.get('x0')
        if f is None or x0 is None:
            return I.fail(st, 'TypeError')
        extra = k.get('args')
        extra = [] if extra is None else [extra] if extra.op != 'tuple' else list(extra.args)
        x0 = I.freeze(x0, st)
        if x0.op == 'arr':
            n = slen(norm_seq(x0.args[0]))
        elif x0.op in ('list', 'tuple', 'comp'):
            n = slen(norm_seq(x0))
        else:
            n = ONE
        X = mk('sym', fresh('p').args[0], 'ndarray')

        def point(t):
            c = as_int(n)
            return mk('arr', mk('list', *[mk('at', t, num(j)) for j in range(c)]) if c is not None and c <= 40 else comp(n, lambda i: mk('at', t, i)))
        s2 = st.copy()
        g0 = len(s2.guards)
        s2.path = TRUE
        v = I.call(f, [point(X)] + extra, {}, s2, ctx)
        if s2.dead:
            v = mk('raise', s2.guards[-1][1])
        else:
            v = I.freeze(v, s2)
            if v.op == 'arr':
                w = norm_seq(v.args[0])
                v = w.args[0] if w.op == 'list' and len(w.args) == 1 else w
        for c, e in reversed(s2.guards[g0:]):
            v = ite(c, mk('raise', e), v)
        r = mk('call', mk('pyfn', 'scipy.optimize.root'), bind('lam', [X], [v]), n)
        touched = [q for q, o in st.heap.items() if o[0] != 'frame' and s2.heap.get(q) is not o and s2.heap.get(q) != o]
        if s2.dead:
            return I.fail(st, s2.guards[-1][1])
        if touched or len(s2.guards) > g0:
            I.call(f, [point(mk('call', mk('pyfn', 'last trial'), r))] + extra, {}, st, ctx)
        return r

    def minimum_field(self, v, name):
        return mk('arr', mk('list', *[mk('at', v, num(j)) for j in range(as_int(v.args[4]))])) if name == 'x' else mk('at', v, const(name))

    def root_field(self, v, name):
        n = v.args[2]
        if name != 'x':
            return mk('at', v, const(name))
        c = as_int(n)
        x = mk('at', v, const('x'))
        return mk('arr', mk('list', *[mk('at', x, num(j)) for j in range(c)]) if c is not None and c <= 40 else comp(n, lambda i: mk('at', x, i)))

    x_scipy__optimize__fsolve = x_scipy__optimize__root

    def partial(self, t, w):
        """the derivative of a polynomial in the coordinates of the unknown"""
        out = ZERO
        for m, c in tm._poly_items(t).items():
            for q, (a, e) in enumerate(m):
                if a is w:
                    rest = m[:q] + (((a, e - 1),) if e != 1 else ()) + m[q + 1:]
                    out = add(out, tm._from_items({rest: c * e}))
                elif a is not w and contains(a, lambda x: x is w):
                    return None
        return out

    def x_scipy__optimize__minimize(self, a, k, st, ctx):
        """the minimiser of a problem: objective, equations and inequalities over the unknown vector; starting values (but for their number),
        method and tolerance only steer the search"""
        I = self.i
        k = dict(zip(('fun', 'x0', 'args', 'method', 'jac', 'hess', 'hessp', 'bounds', 'constraints'), a)) | k
        for q in ('constraints', 'bounds'):
            v = k.get(q, NONE)
            if v.op == 'ref' and I.obj(st, v)[0] == 'list':
                v = norm_seq(I.obj(st, v)[1])
            if v.op == 'ite':
                return I.fork(st, v.args[0], lambda s: self.x_scipy__optimize__minimize((), k | {q: v.args[1]}, s, ctx), lambda s: self.x_scipy__optimize__minimize((), k | {q: v.args[2]}, s, ctx))
        f, x0 = k.get('fun'), k.get('x0')
        if f is None or x0 is None:
            return I.fail(st, 'TypeError')
        x0 = I.freeze(x0, st)
        s0 = norm_seq(x0.args[0] if x0.op == 'arr' else x0)
        n = as_int(slen(s0)) if s0.op in ('list', 'tuple', 'comp') else None
        if n is None or k.get('args', NONE) not in (NONE, mk('tuple')):
            raise _i.Undecided('a minimisation of unknown size')
        X = mk('sym', '%w', 'ndarray')
        W = [mk('at', X, num(j)) for j in range(n)]

        busy = []

        def value(g, main=False):
            s2 = st.copy()
            g0 = len(s2.guards)
            s2.path = TRUE
            v = I.call(g, [self.newarr(mk('list', *W), s2)], {}, s2, ctx)
            v = I.freeze(v, s2)
            touched = any(o[0] != 'frame' and s2.heap.get(q) is not o and s2.heap.get(q) != o for q, o in st.heap.items())
            if s2.dead and main and len(s2.guards) == g0 + 1 and s2.guards[-1][0] is TRUE and isinstance(s2.guards[-1][1], str):
                return s2.guards[-1][1]
            if s2.dead:
                raise _i.Undecided(f'a minimisation that fails: {s2.guards[-1:]}')
            if not main and (len(s2.guards) > g0 or touched):
                raise _i.Undecided('a minimisation whose functions have effects')
            if touched or len(s2.guards) > g0:
                busy.append(g)
            for c, e in reversed(s2.guards[g0:]):
                v = ite(c, mk('raise', e), v)
            if v.op == 'arr':
                d = nd.shape(v)
                if len(d) != 1 or as_int(d[0]) is None:
                    raise _i.Undecided('values of a constraint')
                return [nd.element(v, [num(j)]) for j in range(as_int(d[0]))]
            return list(v.args) if v.op in ('list', 'tuple') else [v]

        def scaled(t, sign):
            c = tm._lead_coef(t) if t.op == 'poly' else t.args[0] if t.op == 'num' else 1
            return tm.scale(t, 1 / (c if sign else abs(c))) if c else t
        obj = value(f, True)
        if isinstance(obj, str):        # the objective fails wherever it is asked
            return I.fail(st, obj)
        if len(obj) != 1:
            raise _i.Undecided('values of an objective')
        obj = obj[0]
        one = list(tm._poly_items(obj).items())
        if len(one) == 1 and len(one[0][0]) == 1 and one[0][1] > 0 and one[0][0][0][1] > 0 and one[0][0][0][1] != int(one[0][0][0][1]):
            obj = one[0][0][0][0]       # a root does not move the minimum
            if k.get('jac', NONE) is not NONE:
                raise _i.Undecided('the gradient of an objective')
        jac, odd = k.get('jac', NONE), []
        if jac is not NONE and jac is not FALSE and jac.op not in ('const', 'num'):
            g = value(jac)
            d = [self.partial(obj, w) for w in W]
            if None in d or len(g) != n:
                raise _i.Undecided('the gradient of an objective')
            if any(not tm.is_zero(sub(x, y)) for x, y in zip(g, d)):
                odd = [mk('tuple', *g)]
        eqs, ineqs = [], []
        cons = k.get('constraints', NONE)
        if cons is not NONE:
            cons = [cons] if cons.op == 'dict' or cons.op == 'ref' and I.obj(st, cons)[0] == 'dict' else I.iter_seq(cons, st, ctx)
            if isinstance(cons, T):
                cons = norm_seq(cons)
                if cons.op not in ('list', 'tuple'):
                    raise _i.Undecided('constraints')
                cons = cons.args
        for c in (cons if cons is not NONE else ()):
            t, g = (I.getitem(c, const(q), st, ctx) for q in ('type', 'fun'))
            if t.op != 'const' or t.args[0] not in ('eq', 'ineq'):
                raise _i.Undecided('a constraint')
            for v in value(g):
                (eqs if t.args[0] == 'eq' else ineqs).append(scaled(v, t.args[0] == 'eq'))
        b = k.get('bounds', NONE)
        if b is not NONE:
            b = norm_seq(I.freeze(b, st))
            bs = [at(b, num(j)) for j in range(n)]
            for w, p in zip(W, bs):
                if p.op not in ('tuple', 'list') or len(p.args) != 2:
                    raise _i.Undecided('bounds')
                lo, hi = p.args
                if lo is not NONE and lo is not num(float('-inf')):
                    ineqs.append(scaled(sub(w, lo), False))
                if hi is not NONE and hi is not num(float('inf')):
                    ineqs.append(scaled(sub(hi, w), False))
        # weights that are not negative and add up to one do not exceed one
        one = scaled(sub(add(*W), ONE), True)
        if any(tm.is_zero(sub(e, one)) for e in eqs) and all(any(v is w for v in ineqs) for w in W):
            tops = [scaled(sub(ONE, w), False) for w in W]
            ineqs = [v for v in ineqs if v not in tops]
        obj = tm._from_items({m: c for m, c in tm._poly_items(obj).items() if any(contains(x, lambda z: z is X) for x, _ in m)})
        how = k.get('method', NONE)
        if how is not NONE and (eqs or ineqs) and not (how.op == 'const' and str(how.args[0]).lower() in ('slsqp', 'trust-constr')):
            odd.append(how)
        r = mk('call', mk('pyfn', 'scipy.optimize.minimize'), scaled(obj, False), mk('tuple', *sorted(set(eqs), key=lambda t: t.uid)), mk('tuple', *sorted(set(ineqs), key=lambda t: t.uid)), num(n), *odd)
        for g in busy:
            t = mk('call', mk('pyfn', 'last trial'), r)
            I.call(g, [self.newarr(mk('list', *[mk('at', t, num(j)) for j in range(n)]), st)], {}, st, ctx)
        return r


    def x_pandas__date_range(self, a, k, st, ctx):
        k = dict(zip(('start', 'end', 'periods', 'freq'), a)) | k
        lo, hi, per, fr = (k.get(x, NONE) for x in ('start', 'end', 'periods', 'freq'))
        if set(k) - {'start', 'end', 'periods', 'freq'} or fr is not NONE and fr.op != 'const' or fr is not NONE and fr.args[0] not in ('D', '1D') or lo is NONE:
            return mk('call', mk('pyfn', 'pandas.date_range'), *[x for q in sorted(k) for x in (const(q), self.i.freeze(k[q], st))])
        if per is NONE and hi is not NONE:
            n = add(sub(hi, lo), ONE)
        elif hi is NONE and per is not NONE:
            n = per
        else:
            return mk('call', mk('pyfn', 'pandas.date_range'), lo, hi, per)
        n = ite(pos(n), n, ZERO)
        return mk('dates', comp(n, lambda i: add(lo, i)))

    def x_pandas__Series(self, a, k, st, ctx):
        """values and index, in order"""
        k = dict(zip(('data', 'index'), a)) | k
        if set(k) - {'data', 'index'} or set(k) != {'data', 'index'}:
            return unk('series')
        v, i = (self.i.freeze(self.i.iter_seq(k[q], st, ctx), st) for q in ('data', 'index'))
        return mk('tuple', const('series'), v, i)

    def x_pandas__DataFrame(self, a, k, st, ctx):
        """columns with their values, in order: from rows and names, or from a dictionary of columns"""
        k = dict(zip(('data', 'index', 'columns'), a)) | k
        if set(k) - {'data', 'columns'} or 'data' not in k:
            return unk('table')
        d = self.i.freeze(k['data'], st)
        if d.op == 'dict' and 'columns' not in k:
            names, cols = list(d.args[0::2]), [norm_seq(x) for x in d.args[1::2]]
        else:
            c = self.i.freeze(self.i.iter_seq(k['columns'], st, ctx), st) if 'columns' in k else None
            if c is None or c.op != 'list':
                return unk('table')
            rows = self.i.freeze(self.i.iter_seq(k['data'], st, ctx), st)
            names = list(c.args)
            cols = [smap(rows, lambda r, j=j: self.i._getitem(r, num(j), st, ctx)) for j in range(len(names))]
        return mk('tuple', const('table'), *[mk('tuple', n, self.i.freeze(c, st)) for n, c in zip(names, cols)])

    def x_scipy__interpolate__interp1d(self, a, k, st, ctx):
        # fixed by the nodes, the values and the kind; the nodes may come in any order unless assume_sorted says otherwise
        k = dict(zip(('x', 'y', 'kind', 'axis', 'copy', 'bounds_error', 'fill_value', 'assume_sorted'), a)) | k
        if 'x' not in k or 'y' not in k:
            return self.i.fail(st, 'TypeError')
        k.pop('copy', None)
        k.pop('assume_sorted', None)
        x, y = (self.plainseq(self.i.freeze(k.pop(z), st)) for z in 'xy')
        kind = k.pop('kind', const('linear'))
        kz = [z for q in sorted(k) for z in (const(q + '='), self.i.freeze(k[q], st))]
        return mk('call', mk('pyfn', 'scipy.interpolate.interp1d'), x, y, self.i.freeze(kind, st), *kz)

    def plainseq(self, t):
        return t.args[0] if t.op == 'arr' and t.args and isinstance(t.args[0], T) else t

    def object_method(self, base, args, kwargs, st):
        if base in ('__init__', '__init_subclass__'):
            return NONE
        if base == '__eq__':
            return FALSE if len(args) > 1 and args[0] is not args[1] else TRUE
        return self.i.fail(st, 'AttributeError')

    # builtins -----------------------------------------------------
    def x_len(self, a, k, st, ctx):
        v = a[0]
        I = self.i
        return I.dist(v, st, lambda x, s: self._len(x, s, ctx))

    def _len(self, v, st, ctx):
        I = self.i
        fi = self.user(v, '__len__', st)
        if fi is not None:
            return I.call_fn(fi, [v], {}, st)
        c = I.content(v, st)
        if c.op in ('itemsview',):
            c = c.args[0]
        if c.op == 'iter' or c is NONE or c.op in ('num', 'poly', 'enum', 'fn', 'clo', 'rec') and not (c.op == 'rec' and I.cls(c.args[0]).is_namedtuple):
            return I.fail(st, 'TypeError')
        if c.op == 'ref':
            return I.fail(st, 'TypeError')
        if v.op == 'ref' and I.obj(st, v)[0] == 'set':
            q = self.set_seq(c, st)
            return slen(q)
        if c.op == 'dset':
            return ite(member(c.args[1], c.args[0]), self._len(c.args[0], st, ctx), add(ONE, self._len(c.args[0], st, ctx)))
        if c.op == 'cls':
            return slen(I.iter_seq(c, st, ctx))
        if c.op == 'dictcomp':
            return mk('len', c)
        return slen(c)

    def x_abs(self, a, k, st, ctx):
        def f(x, s):
            x = self.val(x, s)
            if x.op == 'arr':
                return map_arr(x, lambda e: ite(lt(e, ZERO), neg(e), e))
            return ite(lt(x, ZERO), neg(x), x)
        return self.i.dist(a[0], st, f)

    def x_bool(self, a, k, st, ctx):
        return self.i.truth(a[0], st) if a else FALSE

    def x_float(self, a, k, st, ctx):
        def f(x, s):
            if x.op == 'const' and isinstance(x.args[0], str):
                t = x.args[0].strip().lower()
                if t in ('inf', 'infinity', '+inf'):
                    return num(float('inf'))
                if t == '-inf':
                    return num(float('-inf'))
                try:
                    return num(float(t))
                except ValueError:
                    return self.i.fail(s, 'ValueError')
            if x is NONE:
                return self.i.fail(s, 'TypeError')
            if x.op == 'arr' or x.op == 'ref':
                x = self.i.freeze(x, s)
                while x.op == 'arr' or x.op == 'list':
                    w = norm_seq(x.args[0]) if x.op == 'arr' else x
                    if w.op != 'list' or len(w.args) != 1:
                        break
                    x = w.args[0]
                if x.op not in ('arr', 'list', 'comp'):
                    return self.boolnum(x)
                return mk('call', mk('pyfn', 'float'), x)
            return self.boolnum(x)
        return self.i.dist(a[0], st, f)

    def boolnum(self, x):
        if x is TRUE:
            return ONE
        if x is FALSE:
            return ZERO
        if x.op in ('pos', 'zero', 'eq', 'not', 'in', 'exists', 'truth', 'isinst'):
            return ite(x, ONE, ZERO)
        return x

    def x_int(self, a, k, st, ctx):
        def f(x, s):
            if x.op == 'num':
                v = x.args[0]
                return num(int(v))
            if lin.is_int_term(x):
                return x
            if x.op == 'fstr' and len(x.args) == 1 and lin.is_int_term(x.args[0]):
                return x.args[0]
            if x is NONE:
                return self.i.fail(s, 'TypeError')
            if x.op in ('const',) and isinstance(x.args[0], str):
                try:
                    return num(int(x.args[0]))
                except ValueError:
                    return self.i.fail(s, 'ValueError')
            if self.i.is_bool(x):
                return self.boolnum(x)
            return mk('int', x)
        return self.i.dist(a[0], st, f)

    def x_round(self, a, k, st, ctx):
        if a[0].op == 'num' and len(a) == 1:
            return num(round(a[0].args[0]))
        if len(a) == 1 and lin.is_int_term(a[0]):
            return a[0]
        return mk('round', *a, *k.values())

    def x_str(self, a, k, st, ctx):
        if not a:
            return const('')
        v = a[0]
        fi = self.user(v, '__str__', st) or self.user(v, '__repr__', st)
        if fi is not None and v.op != 'enum':
            return self.i.call_fn(fi, [v], {}, st)
        if v.op == 'const' and isinstance(v.args[0], str):
            return v
        return mk('fstr', self.i.freeze(v, st))

    x_repr = x_str
    x_format = x_str

    def x_print(self, a, k, st, ctx):
        return NONE

    def x_id(self, a, k, st, ctx):
        return mk('id', a[0])

    def x_hash(self, a, k, st, ctx):
        fi = self.user(a[0], '__hash__', st)
        if fi is not None:
            return self.i.call_fn(fi, [a[0]], {}, st)
        return mk('hash', self.i.freeze(a[0], st))

    def x_type(self, a, k, st, ctx):
        def f(v, s):
            c = self.classof(v, s)
            if c is not None:
                return mk('cls', c.key)
            ty = self.i.ty(v)
            if ty == 'datetime':
                return mk('pyfn', 'datetime.datetime')
            if ty == 'date':
                return mk('pyfn', 'datetime.date')
            if v.op == 'num':
                return mk('pyfn', 'int' if v.args[0].denominator == 1 else 'float')
            if ty == 'int':
                return mk('pyfn', 'int')
            if ty == 'str':
                return mk('pyfn', 'str')
            if v.op == 'ref':
                return mk('pyfn', self.i.obj(s, v)[0])
            if v.op == 'tuple':
                return mk('pyfn', 'tuple')
            if v is NONE:
                return mk('pyfn', 'NoneType')
            if ty and ty.startswith('obj:'):
                return mk('typeof', v)
            return mk('typeof', v)
        return self.i.dist(a[0], st, f)

    def x_isinstance(self, a, k, st, ctx):
        return self.isinstance_(a[0], a[1], st)

    def x_issubclass(self, a, k, st, ctx):
        if a[0].op == 'cls' and a[1].op == 'cls':
            return boolc(self.i.cls(a[1].args[0]) in self.i.cls(a[0].args[0]).mro())
        return mk('truth', mk('call', mk('pyfn', 'issubclass'), *a))

    def x_callable(self, a, k, st, ctx):
        v = a[0]
        if v.op in ('fn', 'clo', 'bm', 'lam', 'partial', 'cls', 'pyfn', 'meth'):
            return TRUE
        if v.op in ('num', 'poly', 'list', 'tuple', 'dict', 'rec', 'enum', 'const') or v is NONE:
            return FALSE
        return mk('truth', mk('call', mk('pyfn', 'callable'), self.i.freeze(v, st)))

    def x_hasattr(self, a, k, st, ctx):
        v, n = a[0], a[1]
        I = self.i
        if n.op != 'const':
            return unk('hasattr')
        if v.op == 'ite':
            return ite(v.args[0], self.x_hasattr([v.args[1], n], k, st, ctx), self.x_hasattr([v.args[2], n], k, st, ctx))
        s = st.copy()
        g = len(s.guards)
        r = I.getattr(v, n.args[0], s, ctx)
        if r.op == 'unk':
            return r
        if s.dead:
            return FALSE
        if len(s.guards) > g:
            return not_(or_(*[c for c, e in s.guards[g:]]))
        return TRUE

    def x_getattr(self, a, k, st, ctx):
        I = self.i
        v, n = a[0], a[1]
        if n.op == 'ite':
            return I.dist(n, st, lambda x, s: self.x_getattr([v, x] + a[2:], k, s, ctx))
        if n.op != 'const' or not isinstance(n.args[0], str):
            return unk('getattr with a computed name')
        if len(a) == 2:
            return I.getattr(v, n.args[0], st, ctx)
        h = self.x_hasattr([v, n], k, st, ctx)
        if h.op == 'unk':
            return h
        return I.fork(st, h, lambda s: I.getattr(v, n.args[0], s, ctx), lambda s: a[2])

    def x_setattr(self, a, k, st, ctx):
        if a[1].op != 'const':
            raise _i.Undecided('setattr with a computed name')
        self.i.setattr(a[0], a[1].args[0], a[2], st, ctx)
        return NONE

    x_object____setattr__ = x_setattr

    def it(self, v, st, ctx):
        return self.i.iter_seq(v, st, ctx)

    def x_iter(self, a, k, st, ctx):
        if len(a) > 1:
            return unk('iter with sentinel')
        return mk('iter', self.it(a[0], st, ctx))

    def x_next(self, a, k, st, ctx):
        s = a[0]
        if s.op == 'ref' and self.i.obj(st, s)[0] == 'inst':
            fi = self.user(s, '__next__', st)
            if fi is not None:
                return self.i.call_fn(fi, [s], {}, st)
        if s.op in ('ref', 'list', 'tuple', 'dict') and not (s.op == 'list'):
            return self.i.fail(st, 'TypeError')
        q = self.it(s, st, ctx)
        return self.first(q, a[1] if len(a) > 1 else None, st)

    def first(self, q, default, st):
        q = norm_seq(q)
        if q.op == 'unk':
            return q
        if q.op == 'list':
            if q.args:
                return q.args[0]
            return default if default is not None else self.i.fail(st, 'StopIteration')
        if q.op == 'ite':
            return self.i.fork(st, q.args[0], lambda s: self.first(q.args[1], default, s), lambda s: self.first(q.args[2], default, s))
        if q.op == 'concat':
            rest = concat(*q.args[1:])
            return self.i.fork(st, pos(slen(q.args[0])), lambda s: self.first(q.args[0], default, s), lambda s: self.first(rest, default, s))
        n = slen(q)
        if q.op == 'filt':
            vs, b, p = open_binder(q)
            i = fresh('i')
            any_ = exists_(p[0], vs[0], b[0])
            kk = fresh('k')
            t = iters_b([kk], [and_(lt(kk, p[0]), not_(subst(b[0], {vs[0]: kk})))], [])
            val = subst(b[1], {vs[0]: t})
        elif q.op == 'flat':
            return mk('at', q, ZERO) if default is None else unk('first of nested sequence')
        else:
            any_ = pos(n)
            val = at(q, ZERO)
        if default is None:
            self.i.raise_(st, not_(any_), 'StopIteration')
            return val
        return ite(any_, val, default)

    def x_list(self, a, k, st, ctx):
        return self.i.alloc(st, ('list', self.it(a[0], st, ctx) if a else EMPTY))

    def x_tuple(self, a, k, st, ctx):
        s = self.it(a[0], st, ctx) if a else EMPTY
        return mk('tuple', *s.args) if s.op == 'list' else s

    def x_set(self, a, k, st, ctx):
        return self.i.alloc(st, ('set', self.it(a[0], st, ctx) if a else EMPTY))

    x_frozenset = x_set

    def x_dict(self, a, k, st, ctx):
        d = mk('dict')
        if a:
            c = self.i.content(a[0], st)
            if c.op in ('dict', 'dset', 'dictcomp') or (self.i.ty(c) or '').startswith('dict'):
                d = c
            else:
                d = self.dict_from_pairs(self.it(a[0], st, ctx), st)
        for kk, v in k.items():
            d = dset(d, const(kk), v)
        return self.i.alloc(st, ('dict', d))

    def x_dict__fromkeys(self, a, k, st, ctx):
        s = self.it(a[0], st, ctx)
        v = a[1] if len(a) > 1 else NONE
        return self.i.alloc(st, ('dict', self.dict_from_pairs(smap(s, lambda x: mk('tuple', x, v)), st)))

    def x_range(self, a, k, st, ctx):
        if len(a) == 1:
            return rng(ZERO, a[0])
        return rng(*a)

    def x_enumerate(self, a, k, st, ctx):
        s = self.it(a[0], st, ctx)
        start = a[1] if len(a) > 1 else k.get('start', ZERO)
        return self.enum_(s, start)

    def enum_(self, s, start):
        s = norm_seq(s)
        if s.op == 'unk':
            return s
        if s.op == 'ite':
            return ite(s.args[0], self.enum_(s.args[1], start), self.enum_(s.args[2], start))
        if s.op == 'list':
            return mk('list', *[mk('tuple', add(start, num(j)), x) for j, x in enumerate(s.args)])
        if s.op == 'concat':
            out = []
            off = start
            for p in s.args:
                out.append(self.enum_(p, off))
                off = add(off, slen(p))
            return concat(*out)
        ix = indexable(s)
        if ix:
            return comp(ix[0], lambda i: mk('tuple', add(start, i), ix[1](i)))
        return comp(slen(s), lambda i: mk('tuple', add(start, i), at(s, i)))

    def x_zip(self, a, k, st, ctx):
        ss = [self.it(x, st, ctx) for x in a]
        if not ss:
            return EMPTY
        return szip(*ss)

    def x_map(self, a, k, st, ctx):
        ss = [self.it(x, st, ctx) for x in a[1:]]
        s = ss[0] if len(ss) == 1 else szip(*ss)
        multi = len(ss) > 1
        return self.mapcall(a[0], s, st, ctx, multi)

    def mapcall(self, f, s, st, ctx, multi=False):
        """sequence of f(x): evaluated as a loop appending to a fresh list"""
        I = self.i
        fid = I.new_id()
        st.heap[fid] = ('frame', {'%acc': EMPTY}, None)
        Out = _i.Out

        def body(s2, elem):
            args = list(norm_seq(elem).args) if multi and norm_seq(elem).op == 'list' else ([at(elem, num(j)) for j in range(2)] if multi else [elem])
            v = I.call(f, args, {}, s2, None, ctx)
            cur = I.frame_get(s2, fid, '%acc')
            I.frame_set(s2, fid, '%acc', concat(cur, seq(v)))
            return Out(fall=(TRUE, s2))
        o = I.loop_seq(s, st, ctx, body)
        if o.fall is None:
            st.dead = True
            return EMPTY
        st.become(o.fall[1])
        return EMPTY if st.dead else I.frame_get(st, fid, '%acc')

    def x_filter(self, a, k, st, ctx):
        I = self.i
        s = self.it(a[1], st, ctx)
        fid = I.new_id()
        st.heap[fid] = ('frame', {'%acc': EMPTY}, None)
        Out = _i.Out

        def body(s2, elem):
            c = I.truth(elem if a[0] is NONE else I.call(a[0], [elem], {}, s2, None, ctx), s2)
            if c.op == 'unk':
                raise _i.Undecided(c.args[0])

            def yes(s3):
                I.frame_set(s3, fid, '%acc', concat(I.frame_get(s3, fid, '%acc'), seq(elem)))
                return NONE
            I.fork(s2, c, yes, lambda s3: NONE)
            return Out(fall=(TRUE, s2))
        o = I.loop_seq(s, st, ctx, body)
        if o.fall is None:
            st.dead = True
            return EMPTY
        st.become(o.fall[1])
        return EMPTY if st.dead else I.frame_get(st, fid, '%acc')

    def x_reversed(self, a, k, st, ctx):
        fi = self.user(a[0], '__reversed__', st)
        if fi is not None:
            return self.i.call_fn(fi, [a[0]], {}, st)
        return self.rev(self.it(a[0], st, ctx))

    def rev(self, s):
        s = norm_seq(s)
        if s.op == 'concat':
            return concat(*[self.rev(p) for p in reversed(s.args)])
        return sslice(s, NONE, NONE, num(-1))

    def x_sorted(self, a, k, st, ctx):
        s = self.it(a[0], st, ctx)
        return self.i.alloc(st, ('list', self.sort_(s, k, st, ctx)))

    def sort_(self, s, k, st, ctx):
        I = self.i
        keyf = k.get('key', NONE)
        rev = k.get('reverse', FALSE)
        rv = I.truth(rev, st)
        x = mk('sym', fresh('x').args[0], I.elem_ty(s))
        if keyf is NONE:
            key = x
            if s.op == 'list' and len(s.args) == 1:
                return s
            if s.op == 'list' and s.args and s.args[0].op == 'ref':
                if rv is not TRUE and rv is not FALSE:
                    return unk('sort direction')
                out = EMPTY
                for e in s.args:
                    out = I.dist(out, st, lambda cur, q, e=e: self.insert_object(cur.args, e, rv, q, ctx))
                    if out.op == 'unk':
                        return out
                return out
            if s.op == 'list' and s.args and s.args[0].op in ('tuple', 'rec'):
                n = len(norm_seq(s.args[0]).args)
                key = mk('tuple', *[at(x, num(j)) for j in range(n)])
        else:
            if s.op == 'list' and any(e.op in ('ref',) for e in s.args):
                keys = [I.freeze(I.call(keyf, [e], {}, st, None, ctx), st) for e in s.args]
                return self.sort_explicit(list(s.args), keys, rv, st)
            s2 = st.copy()
            key = I.call(keyf, [x], {}, s2, None, ctx)
            key = I.freeze(key, s2)
            if s2.dead:
                return unk('sort key')
        if rv is TRUE:
            return seqs.sortedk_b([x], [key], [s, TRUE])
        if rv is not FALSE:
            return unk('sort direction')
        if s.op == 'list' and 1 < len(s.args) <= 6:
            keys = [subst(key, {x: e}) for e in s.args]
            r = self.sort_explicit(list(s.args), keys, rv, st, weak=True)
            if r is not None:
                return r
        return seqs.sortedk_b([x], [key], [s])

    def insert_object(self, cur, e, rv, st, ctx):
        """the sorted list with one more object, placed by its own comparison"""
        I = self.i

        def go(p, q):
            if p == 0:
                return mk('list', e, *cur)
            a, b = (e, cur[p - 1]) if rv is not TRUE else (cur[p - 1], e)
            c = I.truth(I.compare('Lt', a, b, q, ctx), q)
            if c.op == 'unk':
                return c
            return I.fork(q, c, lambda q2: go(p - 1, q2), lambda q2: mk('list', *cur[:p], e, *cur[p:]))
        if len(cur) > 5:
            return unk('sorting many objects')
        return go(len(cur), st)

    def sort_explicit(self, elems, keys, rv, st, weak=False):
        """insertion sort when all comparisons are decided by the facts"""
        idx = []
        for j in range(len(elems)):
            p = len(idx)
            while p > 0:
                a, b = (keys[j], keys[idx[p - 1]]) if rv is not TRUE else (keys[idx[p - 1]], keys[j])
                c = lt(a, b) if a.op not in ('tuple', 'const') else None
                d = st.facts.decide(c) if c is not None else None
                if d is None:
                    return None if weak else unk('order of objects')
                if not d:
                    break
                p -= 1
            idx.insert(p, j)
        return mk('list', *[elems[j] for j in idx])

    def x_sum(self, a, k, st, ctx):
        s = self.it(a[0], st, ctx)
        start = a[1] if len(a) > 1 else k.get('start', ZERO)
        if s.op == 'list' and any(self.val(x, st).op == 'arr' or x.op == 'ref' for x in s.args):
            tot = start
            for x in s.args:
                tot = self.i.binop('Add', tot, x, st, ctx)
            return tot
        s = smap(s, self.boolnum)
        return add(start, ssum(s))

    def _mm(self, a, k, st, ctx, f, name):
        I = self.i
        s = self.it(a[0], st, ctx) if len(a) == 1 else mk('list', *a)
        key = k.get('key', NONE)
        d = k.get('default')
        if s.op == 'ite':
            return I.fork(st, s.args[0], lambda q: self._mm([s.args[1]], k, q, ctx, f, name), lambda q: self._mm([s.args[2]], k, q, ctx, f, name))
        if s.op == 'list':
            if not s.args:
                return d if d is not None else I.fail(st, 'ValueError')
            if any(x is NONE for x in s.args) and len(s.args) > 1:
                return I.fail(st, 'TypeError')
            ks = [I.call(key, [e], {}, st, None, ctx) if key is not NONE else e for e in s.args]
            r, rk = s.args[0], ks[0]
            for e, ek in zip(s.args[1:], ks[1:]):
                c = lt(ek, rk) if name == 'min' else lt(rk, ek)
                dd = st.facts.decide(c)
                if dd is True:
                    r, rk = e, ek
                elif dd is None:
                    r, rk = ite(c, e, r), ite(c, ek, rk)
            return r
        if key is not NONE:
            x = fresh('x')
            s2 = st.copy()
            kb = I.freeze(I.call(key, [x], {}, s2, None, ctx), s2)
            r = bind('extk', [x], [kb], const(name), s)
        else:
            if s.op == 'sortedk' and len(binder_parts(s)[2]) == 1:
                vs, b, p = open_binder(s)
                if b[0] is vs[0]:
                    s = p[0]
            if s.op == 'setof':
                s = s.args[0]
            r = mk(name + 'seq', s)
        if d is not None:
            return ite(pos(slen(s)), r, d)
        I.raise_(st, not_(pos(slen(s))), 'ValueError')
        return r

    def x_min(self, a, k, st, ctx):
        return self._mm(a, k, st, ctx, min_, 'min')

    def x_max(self, a, k, st, ctx):
        return self._mm(a, k, st, ctx, max_, 'max')

    def truthseq(self, s, st):
        return smap(s, lambda x: self.i.truth(x, st))

    def _any(self, s, st, neg_=False):
        f = (lambda x: not_(self.i.truth(x, st))) if neg_ else (lambda x: self.i.truth(x, st))
        r = FALSE
        for p in reversed(seq_parts(s)):
            if p[0] == 'e':
                r = or_(f(p[1]), r)
            elif p[0] == 'm':
                i = fresh('i')
                c = f(p[2](i))
                if p[3]:
                    c = and_(p[3](i), c)
                r = or_(exists_(p[1], i, c), r)
            elif p[0] == 'fl':
                i = fresh('i')
                r = or_(exists_(p[1], i, self._any(p[2](i), st, neg_)), r)
            else:
                r = or_(ite(p[1], self._any(p[2], st, neg_), self._any(p[3], st, neg_)), r)
        return r

    def x_any(self, a, k, st, ctx):
        s = self.it(a[0], st, ctx)
        if s.op == 'unk':
            return s
        return self._any(s, st)

    def x_all(self, a, k, st, ctx):
        s = self.it(a[0], st, ctx)
        if s.op == 'unk':
            return s
        return not_(self._any(s, st, True))

    def x_divmod(self, a, k, st, ctx):
        return mk('tuple', floordiv(a[0], a[1]), mod(a[0], a[1]))

    def x_pow(self, a, k, st, ctx):
        return self.i.binop('Pow', a[0], a[1], st, ctx)

    def x_slice(self, a, k, st, ctx):
        a = [NONE, a[0], NONE] if len(a) == 1 else list(a) + [NONE] * (3 - len(a))
        return mk('slicev', *a)

    def x_object(self, a, k, st, ctx):
        return mk('sym', fresh('obj').args[0], None)

    # math / numpy scalar functions ---------------------------------
    def _u(self, a, st, f):
        def g(x, s):
            x = self._arrish(self.val(x, s), s) if x.op in ('ref', 'list', 'tuple') else x
            if x is NONE:
                return self.i.fail(s, 'TypeError')
            return map_arr(x, f)
        return self.i.dist(a[0], st, g)

    def x_math__exp(self, a, k, st, ctx):
        return self._u(a, st, exp_)

    x_numpy__exp = x_math__exp

    def x_math__sqrt(self, a, k, st, ctx):
        return self._u(a, st, lambda x: power(x, num(Fraction(1, 2))))

    x_numpy__sqrt = x_math__sqrt

    def x_math__log(self, a, k, st, ctx):
        if len(a) > 1:
            return div(log_(a[0]), log_(a[1]))
        return self._u(a, st, log_)

    x_numpy__log = x_math__log

    def x_math__pow(self, a, k, st, ctx):
        return self.i.binop('Pow', a[0], a[1], st, ctx)

    x_numpy__power = x_math__pow

    def x_math__floor(self, a, k, st, ctx):
        return self._u(a, st, lambda x: num(x.args[0].__floor__()) if x.op == 'num' else (x if lin.is_int_term(x) else mk('floor', x)))

    x_numpy__floor = x_math__floor

    def x_math__ceil(self, a, k, st, ctx):
        return self._u(a, st, lambda x: num(x.args[0].__ceil__()) if x.op == 'num' else (x if lin.is_int_term(x) else mk('ceil', x)))

    x_numpy__ceil = x_math__ceil

    def x_math__isclose(self, a, k, st, ctx):
        return mk('truth', mk('call', mk('pyfn', 'isclose'), *sorted(a, key=lambda t: t.uid)))

    def x_math__prod(self, a, k, st, ctx):
        s = self.it(a[0], st, ctx)
        tot = k.get('start', ONE)
        for p in seq_parts(s):
            if p[0] == 'e':
                tot = self.i.binop('Mult', tot, p[1], st, ctx)
            elif p[0] == 'm' and p[3] is None:
                i = fresh('i')
                tot = mul(tot, prod_(p[1], i, p[2](i)))
            else:
                return unk('product')
        return tot

    x_numpy__prod = x_math__prod

    def x_math__fsum(self, a, k, st, ctx):
        return self.x_sum(a, k, st, ctx)

    def x_numpy__abs(self, a, k, st, ctx):
        return self.x_abs(a, k, st, ctx)

    x_numpy__absolute = x_numpy__abs
    x_math__fabs = x_numpy__abs

    def x_numpy__maximum(self, a, k, st, ctx):
        return ew(self._arrish(self.val(a[0], st), st), self._arrish(self.val(a[1], st), st), max_)

    def x_numpy__minimum(self, a, k, st, ctx):
        return ew(self._arrish(self.val(a[0], st), st), self._arrish(self.val(a[1], st), st), min_)

    # numpy arrays ----------------------------------------------------
    def newarr(self, v, st):
        return self.i.alloc(st, ('list', as_arr(v)))

    def arrarg(self, v, st, ctx):
        def fz(x):
            x = self.val(x, st)
            if x.op == 'ref':
                o = self.i.obj(st, x)
                if o[0] == 'list':
                    return fz(norm_seq(o[1]))
                return self.i.freeze(x, st)
            if x.op in ('list', 'tuple'):
                return mk('list', *[fz(y) for y in x.args])
            if x.op == 'arr':
                return norm_seq(x.args[0])
            if x.op in ('iter', 'itemsview'):
                return norm_seq(x.args[0])
            return x
        return fz(v)

    def x_numpy__array(self, a, k, st, ctx):
        def f(v, s):
            x = self.arrarg(v, s, ctx)
            if x.op in ('list', 'comp', 'concat', 'filt', 'flat', 'sortedk', 'slice'):
                return self.i.alloc(s, ('list', mk('arr', x)))
            if self.i.ty(x) and self.i.ty(x).startswith('seq'):
                return self.i.alloc(s, ('list', mk('arr', x)))
            return x
        return self.i.dist(a[0], st, f)

    x_numpy__asarray = x_numpy__array

    def _shape(self, v, st, ctx):
        c = norm_seq(self.i.content(v, st))
        if c.op == 'list':
            return list(c.args)
        return [v]

    def _filled(self, shape, val):
        n = shape[0]
        if len(shape) == 1:
            return comp(n, lambda i: val)
        return comp(n, lambda i: self._filled(shape[1:], val))

    def x_numpy__zeros(self, a, k, st, ctx):
        return self.newarr(self._filled(self._shape(a[0] if a else k['shape'], st, ctx), ZERO), st)

    def x_numpy__ones(self, a, k, st, ctx):
        return self.newarr(self._filled(self._shape(a[0] if a else k['shape'], st, ctx), ONE), st)

    def x_numpy__full(self, a, k, st, ctx):
        return self.newarr(self._filled(self._shape(a[0], st, ctx), a[1]), st)

    def x_numpy__empty(self, a, k, st, ctx):
        return self.newarr(self._filled(self._shape(a[0] if a else k['shape'], st, ctx), mk('sym', 'uninitialised', None)), st)

    def x_numpy__zeros_like(self, a, k, st, ctx):
        return self.newarr(map_arr(self._arrish(self.val(a[0], st), st), lambda x: ZERO), st)

    def x_numpy__eye(self, a, k, st, ctx):
        n = as_int(a[0] if a else k['N'])
        if n is None:
            return mk('call', mk('pyfn', 'numpy.eye'), a[0])
        return self.newarr(mk('list', *[mk('list', *[ONE if i == j else ZERO for j in range(n)]) for i in range(n)]), st)

    x_numpy__identity = x_numpy__eye

    def x_numpy__diag(self, a, k, st, ctx):
        v = self._arrish(self.val(a[0], st), st)
        l = nd_list(v) if v.op == 'arr' else None
        if l is None or not l.args:
            return mk('call', mk('pyfn', 'numpy.diag'), v)
        if l.args[0].op == 'list':
            return self.newarr(mk('list', *[r.args[i] for i, r in enumerate(l.args)]), st)
        n = len(l.args)
        return self.newarr(mk('list', *[mk('list', *[l.args[i] if i == j else ZERO for j in range(n)]) for i in range(n)]), st)

    def x_numpy__dot(self, a, k, st, ctx):
        x, y = self._arrish(self.val(a[0], st), st), self._arrish(self.val(a[1], st), st)
        if x.op != 'arr' and y.op != 'arr' and not self.is_arr(x) and not self.is_arr(y):
            if x.op in ('num',) or y.op in ('num',):
                return mul(x, y)
        return matmul(x, y)

    def x_numpy__matmul(self, a, k, st, ctx):
        return matmul(self._arrish(self.val(a[0], st), st), self._arrish(self.val(a[1], st), st))

    def x_numpy__outer(self, a, k, st, ctx):
        x, y = nd_list(self._arrish(self.val(a[0], st), st)), nd_list(self._arrish(self.val(a[1], st), st))
        if x is None or y is None:
            return unk('outer product')
        return mk('arr', mk('list', *[mk('list', *[mul(p, q) for q in y.args]) for p in x.args]))

    def x_numpy__transpose(self, a, k, st, ctx):
        return transpose(self._arrish(self.val(a[0], st), st))

    def x_numpy__sum(self, a, k, st, ctx):
        x = self._arrish(self.val(a[0], st), st)
        ax = k.get('axis', a[1] if len(a) > 1 else NONE)
        if x.op == 'arr' and nd.isseq(x.args[0]):
            return arr_sum(x, as_int(ax) if ax is not NONE else None)
        if x.op in ('comp', 'filt', 'flat', 'concat', 'sortedk') or x.op == 'arr':
            return ssum(norm_seq(x))
        return mk('call', mk('pyfn', 'numpy.sum'), x)

    def x_numpy__mean(self, a, k, st, ctx):
        x = self._arrish(self.val(a[0], st), st)
        if x.op == 'arr' and x.args[0].op in ('list', 'comp') and 'axis' not in k:
            s = norm_seq(x.args[0])
            return div(ssum(s), slen(s))
        return mk('call', mk('pyfn', 'numpy.mean'), x, *k.values())

    def x_numpy__cumsum(self, a, k, st, ctx):
        v = self._arrish(self.val(a[0], st), st)
        if v.op != 'arr':
            return mk('call', mk('pyfn', 'numpy.cumsum'), v, *a[1:], *k.values())
        ax = k.get('axis', a[1] if len(a) > 1 else NONE)
        d = nd.rank(v)
        if d == 1:
            return self.newarr(mk('arr', self.accum(norm_seq(v), None, st, ctx)), st)
        if as_int(ax) is None:
            return unk('cumulative sum of a flattened array')
        if as_int(ax) % d == d - 1:
            return self.newarr(mk('arr', nd.along(v, -1, lambda s: self.accum(s, None, st, ctx))), st)
        if d == 2:
            return self.newarr(nd.turned(mk('arr', nd.along(nd.turned(v), -1, lambda s: self.accum(s, None, st, ctx)))), st)
        return unk('cumulative sum')

    def x_numpy__concatenate(self, a, k, st, ctx):
        parts = [norm_seq(self.arrarg(x, st, ctx)) for x in self.it(a[0], st, ctx).args]
        return self.newarr(concat(*parts), st)

    def x_numpy__arange(self, a, k, st, ctx):
        if len(a) == 1 and 'stop' not in k:
            a = [ZERO] + list(a)
        k = dict(zip(('start', 'stop', 'step'), a)) | k
        lo, hi, step = k.get('start', ZERO), k.get('stop', NONE), k.get('step', ONE)
        if all(lin.is_int_term(x) for x in (lo, hi, step)):
            return self.newarr(rng(lo, hi, step), st)
        q = div(sub(hi, lo), step)
        n = num(math.ceil(q.args[0])) if q.op == 'num' else mk('ceil', q)
        return self.newarr(comp(ite(lt(ZERO, n), n, ZERO), lambda i: add(lo, mul(i, step))), st)

    def x_numpy__linspace(self, a, k, st, ctx):
        n = a[2] if len(a) > 2 else k.get('num', num(50))
        return self.newarr(comp(n, lambda i: add(a[0], mul(i, div(sub(a[1], a[0]), sub(n, ONE))))), st)

    def x_numpy__expand_dims(self, a, k, st, ctx):
        x = self._arrish(self.val(a[0], st), st)
        ax = as_int(k.get('axis', a[1] if len(a) > 1 else ZERO))
        l = nd_list(x) if x.op == 'arr' else None
        if l is None:
            if ax == 0:
                return mk('arr', mk('list', x))
            return mk('call', mk('pyfn', 'numpy.expand_dims'), x, num(ax or 0))
        if ax == 0:
            return mk('arr', mk('list', l))
        return mk('arr', mk('list', *[mk('list', e) for e in l.args]))

    def entries(self, x, square=True):
        """the entries of a matrix of known size"""
        d = nd.shape(x) if x.op == 'arr' else []
        if len(d) != 2 or as_int(d[0]) is None or as_int(d[1]) is None or square and d[0] is not d[1]:
            return None
        return [[nd.element(x, [num(i), num(j)]) for j in range(as_int(d[1]))] for i in range(as_int(d[0]))]

    def det(self, m):
        if not m:
            return ONE
        out = ZERO
        for j, x in enumerate(m[0]):
            if x is not ZERO:
                out = add(out, scale(mul(x, self.det([r[:j] + r[j + 1:] for r in m[1:]])), (-1) ** j))
        return out

    def inverse(self, m):
        """the inverse of a matrix taken to be regular: by substitution when triangular, by cofactors up to three rows"""
        n = len(m)
        if all(m[i][j] is ZERO for i in range(n) for j in range(i)) and n > 1:
            t = self.inverse([list(r) for r in zip(*m)])
            return t and [list(r) for r in zip(*t)]
        if all(m[i][j] is ZERO for i in range(n) for j in range(i + 1, n)):
            w = [[ZERO] * n for _ in range(n)]
            for j in range(n):
                for i in range(j, n):
                    r = sub(ONE if i == j else ZERO, add(ZERO, *[mul(m[i][q], w[q][j]) for q in range(j, i)]))
                    w[i][j] = div(r, m[i][i]) if r is not ZERO else ZERO
            return w
        if n > 3:
            return None
        d = self.det(m)
        return [[div(scale(self.det([r[:i] + r[i + 1:] for q, r in enumerate(m) if q != j]), (-1) ** (i + j)), d) for j in range(n)] for i in range(n)]

    def matrix(self, rows, st):
        return self.newarr(mk('list', *[mk('list', *r) for r in rows]), st)

    def x_numpy__linalg__inv(self, a, k, st, ctx):
        x = self._arrish(self.val(a[0], st), st)
        m = self.entries(x)
        w = m and self.inverse(m)
        return self.matrix(w, st) if w else mk('call', mk('pyfn', 'numpy.linalg.inv'), x)

    def x_numpy__linalg__det(self, a, k, st, ctx):
        x = self._arrish(self.val(a[0], st), st)
        m = self.entries(x)
        return self.det(m) if m and len(m) <= 4 else mk('call', mk('pyfn', 'numpy.linalg.det'), x)

    def x_numpy__linalg__solve(self, a, k, st, ctx):
        x, y = (self._arrish(self.val(v, st), st) for v in a[:2])
        m = self.entries(x)
        w = m and self.inverse(m)
        if not w:
            return mk('call', mk('pyfn', 'numpy.linalg.solve'), x, y)
        return self.i.binop('MatMult', self.matrix(w, st), self.newarr(y.args[0], st) if y.op == 'arr' else y, st, ctx)

    def x_numpy__linalg__eig(self, a, k, st, ctx):
        """eigenvalues and eigenvectors of a triangular matrix whose diagonal entries differ; the vectors are scaled arbitrarily"""
        x = self._arrish(self.val(a[0], st), st)
        m = self.entries(x)
        n = len(m) if m else 0
        flip = bool(m) and all(m[i][j] is ZERO for i in range(n) for j in range(i))
        if not m or not flip and any(m[i][j] is not ZERO for i in range(n) for j in range(i + 1, n)):
            w = mk('call', mk('pyfn', 'numpy.linalg.eig'), x)
            return mk('tuple', mk('at', w, ZERO), mk('at', w, ONE))
        o = list(range(n - 1, -1, -1)) if flip else list(range(n))
        cols = []
        for p in range(n):
            v = {o[q]: ZERO for q in range(p)}
            v[o[p]] = mk('call', mk('pyfn', 'numpy.linalg.eig.scale'), *[e for r in m for e in r], num(o[p]))
            for q in range(p + 1, n):
                s = add(ZERO, *[mul(m[o[q]][o[l]], v[o[l]]) for l in range(p, q)])
                v[o[q]] = div(s, sub(m[o[p]][o[p]], m[o[q]][o[q]])) if s is not ZERO else ZERO
            cols.append((o[p], v))
        cols.sort(key=lambda c: c[0])
        vals = self.newarr(mk('list', *[m[i][i] for i in range(n)]), st)
        return mk('tuple', vals, self.matrix([[v[i] for _, v in cols] for i in range(n)], st))

    # the global random stream: a seed and a position in it
    def rng(self, st):
        o = st.heap.get('%rng') or self.i.static['%rng']
        return o[1]['seed'], o[1]['pos']

    def rng_set(self, st, seed, pos):
        st.heap['%rng'] = ('frame', {'seed': seed, 'pos': pos}, None)

    def x_numpy__random__seed(self, a, k, st, ctx):
        s = a[0] if a else k.get('seed', NONE)
        self.rng_set(st, s, ZERO)
        return NONE

    def draws(self, dims, st, kind='normal'):
        seed, pos = self.rng(st)
        size = mul(*dims) if dims else ONE
        self.rng_set(st, seed, add(pos, size))

        def one(*ix):
            off = ZERO
            for i, d in zip(ix, dims):
                off = add(mul(off, d), i)
            return mk('call', mk('pyfn', 'random.' + kind), seed, add(pos, off))
        return self.newarr(nd.build(dims, one), st) if dims else one()

    def x_numpy__random__standard_normal(self, a, k, st, ctx):
        size = a[0] if a else k.get('size', NONE)
        return self.draws([] if size is NONE else self._shape(size, st, ctx), st)

    def x_numpy__random__randn(self, a, k, st, ctx):
        return self.draws(list(a), st)

    def x_numpy__random__normal(self, a, k, st, ctx):
        loc, scale_, size = self._kw(a, k, ('loc', 'scale', 'size'), (ZERO, ONE, NONE))
        z = self.draws([] if size is NONE else self._shape(size, st, ctx), st)
        z = self.val(z, st)
        return self.i.binop('Add', loc, self.i.binop('Mult', scale_, z, st, ctx), st, ctx)

    def x_numpy__random__uniform(self, a, k, st, ctx):
        low, high, size = self._kw(a, k, ('low', 'high', 'size'), (ZERO, ONE, NONE))
        u = self.val(self.draws([] if size is NONE else self._shape(size, st, ctx), st, 'uniform'), st)
        return self.i.binop('Add', low, self.i.binop('Mult', self.i.binop('Sub', high, low, st, ctx), u, st, ctx), st, ctx)

    def x_numpy__random__random(self, a, k, st, ctx):
        size = a[0] if a else k.get('size', NONE)
        return self.draws([] if size is NONE else self._shape(size, st, ctx), st, 'uniform')

    x_numpy__random__random_sample = x_numpy__random__random

    def x_numpy__random__rand(self, a, k, st, ctx):
        return self.draws(list(a), st, 'uniform')

    def x_numpy__linalg__cholesky(self, a, k, st, ctx):
        x = self._arrish(self.val(a[0], st), st)
        d = nd.shape(x) if x.op == 'arr' else []
        n = as_int(d[0]) if len(d) == 2 and d[0] is d[1] else None
        if n is None:
            return self.i.fail(st, 'LinAlgError') if len(d) == 2 and as_int(d[0]) is not None and as_int(d[1]) is not None else mk('call', mk('pyfn', 'numpy.linalg.cholesky'), x)
        L = [[ZERO] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                r = sub(nd.element(x, [num(i), num(j)]), add(*[mul(L[i][q], L[j][q]) for q in range(j)])) if j else nd.element(x, [num(i), num(j)])
                L[i][j] = power(r, num(Fraction(1, 2))) if i == j else div(r, L[j][j])
        return self.newarr(mk('list', *[mk('list', *r) for r in L]), st)

    def x_numpy__column_stack(self, a, k, st, ctx):
        s = self.it(a[0], st, ctx)
        return transpose(mk('arr', mk('list', *[norm_seq(self.arrarg(x, st, ctx)) for x in s.args])))

    def x_numpy__vstack(self, a, k, st, ctx):
        s = self.it(a[0], st, ctx)
        if s.op != 'list':
            return unk('vstack')
        out = []
        for x in s.args:
            y = norm_seq(self.arrarg(x, st, ctx))
            out += list(y.args) if y.op == 'list' and y.args and y.args[0].op == 'list' else [y]
        return self.newarr(mk('list', *out), st)

    # datetime ---------------------------------------------------------
    def _kw(self, a, k, names, defaults):
        out = []
        for j, n in enumerate(names):
            out.append(a[j] if j < len(a) else k.get(n, defaults[j] if j < len(defaults) else None))
        return out

    def x_datetime__date(self, a, k, st, ctx):
        y, m, d = self._kw(a, k, ('year', 'month', 'day'), ())
        if y is None or m is None or d is None:
            return self.i.fail(st, 'TypeError')
        if d.op == 'num' and m.op == 'num':
            dm = days_in_month(int(m.args[0]))
            if not 1 <= m.args[0] <= 12 or d.args[0] < 1 or dm and d.args[0] > dm:
                return self.i.fail(st, 'ValueError')
        return mkdate(y, m, d)

    def x_datetime__datetime(self, a, k, st, ctx):
        y, m, d, h, mi, s = self._kw(a, k, ('year', 'month', 'day', 'hour', 'minute', 'second'), (None, None, None, ZERO, ZERO, ZERO))
        if y is None or m is None or d is None:
            return self.i.fail(st, 'TypeError')
        return add(mk('mkdatetime', y, m, d) if True else ZERO, div(add(scale(h, 3600), scale(mi, 60), s), num(86400)))

    def x_datetime__datetime__combine(self, a, k, st, ctx):
        return self.i.dist(a[0], st, lambda x, s: self.i.fail(s, 'TypeError') if x is NONE else add(mk('midnight', dateof(x)) if False else dateof(x), a[1]))

    def x_datetime__time(self, a, k, st, ctx):
        h, mi, s = self._kw(a, k, ('hour', 'minute', 'second'), (ZERO, ZERO, ZERO))
        return div(add(scale(h, 3600), scale(mi, 60), s), num(86400))

    def x_datetime__timedelta(self, a, k, st, ctx):
        names = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
        vals = self._kw(a, k, names, (ZERO,) * 7)
        f = [Fraction(1), Fraction(1, 86400), Fraction(1, 86400 * 10**6), Fraction(1, 86400 * 1000), Fraction(1, 1440), Fraction(1, 24), Fraction(7)]
        tot = ZERO
        for v, c in zip(vals, f):
            tot = self.i.binop('Add', tot, self.i.binop('Mult', v, num(c), st, ctx), st, ctx)
        return tot

    def x_datetime__date__fromordinal(self, a, k, st, ctx):
        return a[0]

    def x_dateutil__relativedelta__relativedelta(self, a, k, st, ctx):
        tot = ZERO
        for n, v in k.items():
            if n == 'months':
                tot = add(tot, mul(v, _i.MONTH))
            elif n == 'years':
                tot = add(tot, mul(scale(v, 12), _i.MONTH))
            elif n == 'days':
                tot = add(tot, mul(v, _i.DAY))
            elif n == 'weeks':
                tot = add(tot, mul(scale(v, 7), _i.DAY))
            elif n in ('hours', 'minutes', 'seconds'):
                tot = add(tot, mul(scale(v, {'hours': Fraction(1, 24), 'minutes': Fraction(1, 1440), 'seconds': Fraction(1, 86400)}[n]), _i.DAY))
            else:
                return unk('relativedelta ' + n)
        if tot is ZERO:
            return mul(ZERO, _i.DAY)
        return tot

    def x_calendar__monthrange(self, a, k, st, ctx):
        return mk('tuple', mk('firstwd', a[0], a[1]), lastday(a[0], a[1]))

    def x_calendar__isleap(self, a, k, st, ctx):
        return self.leap(a[0])

    def leap(self, y):
        return leap(y)

    # bisect --------------------------------------------------------------
    def _bis(self, a, k, st, ctx, name):
        I = self.i
        s = self.it(a[0] if a else k.get('a'), st, ctx)
        x = a[1] if len(a) > 1 else k.get('x')
        key = k.get('key', NONE)
        if x is NONE or x is None:
            return I.fail(st, 'TypeError')
        if key is not NONE:
            s = self.mapcall(key, s, st, ctx)
        if len(a) > 2 or 'lo' in k or 'hi' in k:
            return unk('bisect bounds')
        return self.bis(name, s, x, st)

    def bis(self, name, s, x, st):
        s = norm_seq(s)
        if s.op == 'unk':
            return s
        if s.op == 'list':
            # assumes sortedness, like the library
            tot = ZERO
            r = num(len(s.args))
            for j in range(len(s.args) - 1, -1, -1):
                c = lt(x, s.args[j]) if name == 'bisect_r' else not_(lt(s.args[j], x))
                d = st.facts.decide(c)
                if d is True:
                    r = num(j)
                elif d is None:
                    r = ite(c, num(j), r)
            return r
        # the position is known when the neighbouring items are (sorted, like the library assumes)
        known = []
        for c in st.facts.conds[-60:]:
            for t in tm.collect(c, lambda t: t.op == 'at' and t.args[0] is s):
                if t.args[1] not in known:
                    known.append(t.args[1])
        below = (lambda u: not_(lt(x, u))) if name == 'bisect_r' else (lambda u: lt(u, x))
        for j in known[:6]:
            for i in (j, tm.add(j, ONE)):
                if i is not ZERO and st.facts.decide(below(at(s, tm.sub(i, ONE)))) is not True:
                    continue
                if st.facts.decide(below(at(s, i))) is False:
                    if i is ZERO or st.facts.decide(lt(tm.sub(i, ONE), ZERO)) is False:
                        return i
        return mk(name, s, x)

    def x_bisect__bisect_right(self, a, k, st, ctx):
        return self._bis(a, k, st, ctx, 'bisect_r')

    x_bisect__bisect = x_bisect__bisect_right

    def x_bisect__bisect_left(self, a, k, st, ctx):
        return self._bis(a, k, st, ctx, 'bisect_l')

    def x_bisect__insort_right(self, a, k, st, ctx, left=False):
        I = self.i
        l, x = a[0], a[1]
        key = k.get('key', NONE)
        if l.op != 'ref' or I.obj(st, l)[0] != 'list':
            return I.fail(st, 'TypeError') if l.op != 'unk' else l
        s = norm_seq(I.obj(st, l)[1])
        if s.op == 'list':
            ks = []
            for e in list(s.args):
                ks.append(I.call(key, [e], {}, st, None, ctx) if key is not NONE else e)
            xk = I.call(key, [x], {}, st, None, ctx) if key is not NONE else x
            if st.dead:
                return NONE
            if s.args and (xk is NONE or any(q is NONE for q in ks)):
                return I.fail(st, 'TypeError')
            p = len(s.args)
            while p > 0:
                c = self.compare('Lt', xk, ks[p - 1], st, ctx) if not left else self.compare('Lt', ks[p - 1], xk, st, ctx)
                if st.dead:
                    return NONE
                d = st.facts.decide(c)
                if d is None:
                    raise _i.Undecided('insertion point')
                if left:
                    d = not d
                if not d:
                    break
                p -= 1
            st.heap[l.args[0]] = ('list', mk('list', *s.args[:p], x, *s.args[p:]))
            return NONE
        y = mk('sym', fresh('x').args[0], I.elem_ty(s))
        s2 = st.copy()
        kb = I.freeze(I.call(key, [y], {}, s2, None, ctx), s2) if key is not NONE else y
        st.heap[l.args[0]] = ('list', seqs.sortedk_b([y], [kb], [concat(seq(x), s) if left else concat(s, seq(x))]))
        return NONE

    x_bisect__insort = x_bisect__insort_right

    def x_bisect__insort_left(self, a, k, st, ctx):
        return self.x_bisect__insort_right(a, k, st, ctx, True)

    # itertools / functools / operator / copy -------------------------------
    def x_itertools__pairwise(self, a, k, st, ctx):
        s = self.it(a[0], st, ctx)
        return self.pairwise(s)

    def pairwise(self, s):
        s = norm_seq(s)
        if s.op == 'unk':
            return s
        if s.op == 'list':
            return mk('list', *[mk('tuple', x, y) for x, y in zip(s.args, s.args[1:])])
        if s.op == 'ite':
            return ite(s.args[0], self.pairwise(s.args[1]), self.pairwise(s.args[2]))
        if s.op == 'concat' and len(s.args) == 2 and s.args[0].op == 'list' and len(s.args[0].args) == 1:
            first, rest = s.args[0].args[0], s.args[1]
            ix = indexable(rest)
            if ix:
                # elements: first, r0, r1, ...: pair i is (prev(i), r_i); when r_{-1} equals first it is uniform
                n, f = ix
                i = fresh('i')
                fi = f(i)
                sh = subst(fi, {i: sub(i, ONE)})
                if subst(fi, {i: num(-1)}) is first:
                    return seqs.comp_b([i], [mk('tuple', sh, fi)], [n])
                return seqs.comp_b([i], [mk('tuple', ite(zero(i), first, sh), fi)], [n])
        if s.op == 'concat' and all(indexable(p) for p in s.args):
            # general: gate on the position
            parts = s.args
            out = []
            prev = None
            for p in parts:
                n, f = indexable(p)
                if prev is not None:
                    out.append(ite(pos(n), mk('list', mk('tuple', prev, f(ZERO))), EMPTY) if n.op != 'num' else mk('list', mk('tuple', prev, f(ZERO))))
                m = sub(n, ONE)
                out.append(comp(m, lambda i: mk('tuple', f(i), f(add(i, ONE)))))
                if n.op == 'num':
                    prev = f(sub(n, ONE))
                elif prev is None:
                    prev = f(sub(n, ONE))
                else:
                    prev = ite(pos(n), f(sub(n, ONE)), prev)
            return concat(*out)
        n = slen(s)
        return comp(sub(n, ONE), lambda i: mk('tuple', at(s, i), at(s, add(i, ONE))))

    def x_itertools__chain(self, a, k, st, ctx):
        return concat(*[self.it(x, st, ctx) for x in a])

    def x_itertools__chain__from_iterable(self, a, k, st, ctx):
        s = self.it(a[0], st, ctx)
        I = self.i
        if s.op == 'list':
            return concat(*[self.it(x, st, ctx) for x in s.args])
        return ssflat(s, lambda x: self.it(x, st, ctx))

    def accum(self, s, f, st, ctx, init=None):
        I = self.i
        s = norm_seq(s)
        if s.op == 'list':
            out, acc = ([], None) if init is None else ([init], init)
            for x in s.args:
                acc = x if acc is None else (I.call(f, [acc, x], {}, st, None, ctx) if f is not None else I.binop('Add', acc, x, st, ctx))
                out.append(acc)
            return mk('list', *out)
        ix = indexable(s)
        if ix and f is None:
            n, g = ix
            r = comp(n, lambda i: (lambda j: sum_(add(i, ONE), j, TRUE, g(j)))(fresh('i')))
            return r if init is None else concat(seq(init), smap(r, lambda x: add(init, x)))
        if s.op == 'concat' and f is None:
            out, acc = [] if init is None else [seq(init)], ZERO if init is None else init
            for x in s.args:
                if x.op == 'concat' or x.op != 'list' and indexable(x) is None:
                    return unk('accumulate')
                r = self.accum(x, None, st, ctx)
                out.append(smap(r, lambda y: add(acc, y)))
                acc = add(acc, ssum(x))
            return concat(*out)
        return unk('accumulate')

    def x_itertools__accumulate(self, a, k, st, ctx):
        f = a[1] if len(a) > 1 else k.get('func', NONE)
        return self.accum(self.it(a[0], st, ctx), None if f is NONE else f, st, ctx, k.get('initial') if k.get('initial', NONE) is not NONE else None)

    def x_itertools__islice(self, a, k, st, ctx):
        s = self.it(a[0], st, ctx)
        if len(a) == 2:
            return sslice(s, ZERO, a[1], NONE)
        return sslice(s, a[1], a[2], a[3] if len(a) > 3 else NONE)

    def x_itertools__repeat(self, a, k, st, ctx):
        if len(a) == 1:
            return bind('comp', [fresh('i')], [a[0]], mk('const', 'inf#'))
        return comp(a[1], lambda i: a[0])

    def x_itertools__count(self, a, k, st, ctx):
        start = a[0] if a else ZERO
        step = a[1] if len(a) > 1 else ONE
        i = fresh('i')
        return bind('comp', [i], [add(start, mul(i, step))], mk('const', 'inf#'))

    def x_itertools__starmap(self, a, k, st, ctx):
        return self.mapcall(a[0], self.it(a[1], st, ctx), st, ctx, True)

    def x_functools__partial(self, a, k, st, ctx):
        d = mk('dict', *[x for kk in sorted(k) for x in (const(kk), k[kk])])
        return mk('partial', a[0], mk('tuple', *a[1:]), d)

    def x_functools__reduce(self, a, k, st, ctx):
        I = self.i
        s = self.it(a[1], st, ctx)
        fid = I.new_id()
        Out = _i.Out
        if len(a) > 2:
            init = a[2]
        else:
            if s.op != 'list' or not s.args:
                return unk('reduce')
            init = s.args[0]
            s = mk('list', *s.args[1:])
        st.heap[fid] = ('frame', {'%acc': init}, None)

        def body(s2, elem):
            v = I.call(a[0], [I.frame_get(s2, fid, '%acc'), elem], {}, s2, None, ctx)
            I.frame_set(s2, fid, '%acc', v)
            return Out(fall=(TRUE, s2))
        o = I.loop_seq(s, st, ctx, body)
        if o.fall is None:
            st.dead = True
            return NONE
        st.become(o.fall[1])
        return NONE if st.dead else I.frame_get(st, fid, '%acc')

    def x_functools__wraps(self, a, k, st, ctx):
        return mk('pyfn', '%identity')

    def x_functools__lru_cache(self, a, k, st, ctx):
        if a and a[0].op in ('fn', 'clo', 'rawfn'):
            return a[0]
        return mk('pyfn', '%identity')

    def x_functools__cache(self, a, k, st, ctx):
        return a[0]

    def x_dataclasses__dataclass(self, a, k, st, ctx):
        return a[0] if a else mk('pyfn', '%identity')

    def ext_identity(self, a, k, st, ctx):
        return a[0]

    def x_operator__attrgetter(self, a, k, st, ctx):
        return mk('partial', mk('pyfn', '%attrget'), mk('tuple', *a), mk('dict'))

    def x_operator__itemgetter(self, a, k, st, ctx):
        return mk('partial', mk('pyfn', '%itemget'), mk('tuple', *a), mk('dict'))

    def _op2(op):
        def f(self, a, k, st, ctx):
            return self.i.binop(op, a[0], a[1], st, ctx)
        return f
    x_operator__mul = _op2('Mult')
    x_operator__add = _op2('Add')
    x_operator__sub = _op2('Sub')
    x_operator__truediv = _op2('Div')
    x_operator__matmul = _op2('MatMult')
    x_operator__pow = _op2('Pow')

    def _cmp2(op):
        def f(self, a, k, st, ctx):
            return self.i.compare(op, a[0], a[1], st, ctx)
        return f
    x_operator__lt = _cmp2('Lt')
    x_operator__gt = _cmp2('Gt')
    x_operator__le = _cmp2('LtE')
    x_operator__ge = _cmp2('GtE')
    x_operator__eq = _cmp2('Eq')
    x_operator__contains = lambda self, a, k, st, ctx: self.i.compare('In', a[1], a[0], st, ctx)

    def x_operator__neg(self, a, k, st, ctx):
        return self.i.dist(a[0], st, lambda x, s: self.neg(x, s))

    def x_operator__index(self, a, k, st, ctx):
        def f(x, s):
            t = self.i.ty(x)
            if x.op == 'num' and x.args[0].denominator == 1 or t == 'int' or lin.is_int_term(x):
                return x
            if t in ('date', 'datetime', 'str', 'float') or x is NONE or x.op in ('rec', 'ref', 'const', 'enum', 'tuple', 'list'):
                fi = self.user(x, '__index__', s)
                if fi is not None:
                    return self.i.call_fn(fi, [x], {}, s)
                return self.i.fail(s, 'TypeError')
            return mk('call', mk('pyfn', 'operator.index'), x)
        return self.i.dist(a[0], st, f)

    def x_operator__getitem(self, a, k, st, ctx):
        return self.i.getitem(a[0], a[1], st, ctx)

    def x_copy__copy(self, a, k, st, ctx):
        v = a[0]
        if v.op == 'ref':
            o = self.i.obj(st, v)
            fi = self.user(v, '__copy__', st)
            if fi is not None:
                return self.i.call_fn(fi, [v], {}, st)
            return self.i.alloc(st, o if o[0] != 'inst' else ('inst', o[1], dict(o[2])))
        if v.op == 'ite':
            return self.i.dist(v, st, lambda x, s: self.x_copy__copy([x], k, s, ctx))
        return v

    def x_copy__deepcopy(self, a, k, st, ctx, memo=None):
        memo = {} if memo is None else memo
        v = a[0]
        if v.op == 'ref':
            if v in memo:
                return memo[v]
            o = self.i.obj(st, v)
            fi = self.user(v, '__deepcopy__', st)
            if fi is not None:
                return unk('custom deepcopy')
            r = self.i.alloc(st, o)
            memo[v] = r
            if o[0] == 'inst':
                st.heap[r.args[0]] = ('inst', o[1], {n: self.x_copy__deepcopy([x], k, st, ctx, memo) for n, x in o[2].items()})
            else:
                st.heap[r.args[0]] = (o[0], self._deep(o[1], k, st, ctx, memo))
            return r
        return self._deep(v, k, st, ctx, memo)

    def _deep(self, t, k, st, ctx, memo):
        refs = collect(t, lambda x: x.op == 'ref')
        if not refs:
            return t
        return subst(t, {r: self.x_copy__deepcopy([r], k, st, ctx, memo) for r in refs})

    def x_dataclasses__replace(self, a, k, st, ctx):
        return self.method(a[0], '_replace', [], k, st, ctx)

    # -------------------------------------------------------------- methods of builtin values
    def method(self, o, name, args, kwargs, st, ctx):
        I = self.i
        if o.op == 'ite':
            return I.dist(o, st, lambda x, s: self.method(x, name, args, kwargs, s, ctx))
        if o.op == 'unk':
            return o
        if o.op == 'ref':
            ob = I.obj(st, o)
            if ob[0] == 'list' and ob[1].op == 'arr':
                return self.arr_method(ob[1], name, args, kwargs, st, ctx, o)
            if ob[0] == 'list':
                return self.list_method(o, ob[1], name, args, kwargs, st, ctx)
            if ob[0] == 'dict':
                return self.dict_method(o, ob[1], name, args, kwargs, st, ctx)
            if ob[0] == 'set':
                return self.set_method(o, ob[1], name, args, kwargs, st, ctx)
            return unk('method ' + name)
        if name in ('item', 'tolist') and not args and (I.is_bool(o) or o.op in ('num', 'poly')):
            return o
        if o.op == 'rec' and name in ('_replace', '_asdict'):
            c = I.cls(o.args[0])
            names = [f[0] for f in c.fields()]
            if name == '_replace':
                if any(k not in names for k in kwargs):
                    return I.fail(st, 'ValueError')
                return mk('rec', o.args[0], *[kwargs.get(n, v) for n, v in zip(names, o.args[1:])])
            return I.alloc(st, ('dict', mk('dict', *[x for n, v in zip(names, o.args[1:]) for x in (const(n), v)])))
        if o.op == 'rec' and name in ('isdisjoint',):
            return unk('set mixin')
        if self.is_arr(o):
            return self.arr_method(o, name, args, kwargs, st, ctx, None)
        ty = I.ty(o)
        if ty in ('date', 'datetime') or o.op in ('dateadd', 'mkdate', 'dateof') or o.op == 'poly' and name in DATE_M:
            return self.date_method(o, name, args, kwargs, st, ctx)
        if name == 'total_seconds':
            return scale(o, 86400)
        if o.op in ('dict', 'dset', 'dictcomp') or ty and ty.startswith('dict'):
            return self.dict_method(None, o, name, args, kwargs, st, ctx)
        if o.op in ('setof', 'setop'):
            return self.set_method(None, o.args[0] if o.op == 'setof' else o, name, args, kwargs, st, ctx)
        if o.op in ('list', 'tuple', 'comp', 'filt', 'flat', 'concat', 'sortedk', 'slice') or ty and ty.startswith('seq'):
            return self.list_method(None, norm_seq(o), name, args, kwargs, st, ctx)
        if o.op == 'const' and isinstance(o.args[0], str):
            return self.str_method(o, name, args, kwargs, st, ctx)
        return mk('call', mk('attr', o, name), *[I.freeze(a, st) for a in args], *[x for k in sorted(kwargs) for x in (const(k + '='), I.freeze(kwargs[k], st))])

    def str_method(self, o, name, args, kwargs, st, ctx):
        s = o.args[0]
        if name == 'join' and len(args) == 1:
            q = self.it(args[0], st, ctx)
            if q.op == 'list' and all(x.op == 'const' for x in q.args):
                return const(s.join(x.args[0] for x in q.args))
            return mk('fstr', o, self.i.freeze(q, st))
        if all(a.op == 'const' and isinstance(a.args[0], str) for a in args) and name in STR_M and name != 'format':
            r = getattr(s, name)(*[a.args[0] for a in args])
            if isinstance(r, list):
                return self.i.alloc(st, ('list', mk('list', *[const(x) for x in r])))
            return const(r)
        return mk('fstr', o, const(name), *[self.i.freeze(a, st) for a in args], *kwargs.values())

    def date_method(self, o, name, args, kwargs, st, ctx):
        I = self.i
        if name == 'weekday':
            return weekday(o)
        if name == 'isoweekday':
            return add(weekday(o), ONE)
        if name == 'toordinal':
            return dateof(o)
        if name == 'date':
            return dateof(o)
        if name == 'time':
            return sub(o, dateof(o))
        if name == 'replace':
            y, m, d = self._kw(args, kwargs, ('year', 'month', 'day'), (field('year', o), field('month', o), field('day', o)))
            base = mkdate(y, m, d)
            if set(kwargs) <= {'year', 'month', 'day'}:
                if I.ty(o) == 'datetime':
                    return add(base, sub(o, dateof(o)))
                return base
            h = kwargs.get('hour', None)
            if {'hour', 'minute', 'second', 'microsecond'} <= set(kwargs):
                return add(base, div(add(scale(h, 3600), scale(kwargs['minute'], 60), kwargs['second']), num(86400)))
            return unk('datetime.replace')
        if name in ('strftime', 'isoformat', 'ctime'):
            return mk('fstr', o, const(name), *args)
        if name == 'timestamp':
            return scale(sub(o, mk('sym', 'epoch', 'date')), 86400)
        return unk('date method ' + name)

    def list_method(self, r, s, name, args, kwargs, st, ctx):
        I = self.i
        s = norm_seq(s)

        def store(v):
            if r is None:
                raise _i.Undecided('mutation of an input sequence')
            st.heap[r.args[0]] = ('list', v)
        if name == 'append':
            store(concat(s, seq(args[0])))
            return NONE
        if name == 'extend':
            q = self.it(args[0], st, ctx)
            if not st.dead:
                store(concat(norm_seq(I.obj(st, r)[1]) if r is not None else s, q))
            return NONE
        if name == 'insert':
            j = as_int(args[0])
            if s.op == 'list' and j is not None:
                l = list(s.args)
                l.insert(j, args[1])
                store(mk('list', *l))
                return NONE
            if j == 0:
                store(concat(seq(args[1]), s))
                return NONE
            if args[0] is slen(s):
                store(concat(s, seq(args[1])))
                return NONE
            if args[0].op in ('bisect_r', 'bisect_l'):
                ks = args[0].args[0]
                if ks is s or True:
                    # position found by bisection: sorted insertion by the same key
                    y = mk('sym', fresh('x').args[0], I.elem_ty(s))
                    if ks is s:
                        store(seqs.sortedk_b([y], [y], [concat(s, seq(args[1]))]))
                        return NONE
            raise _i.Undecided('list insertion')
        if name == 'pop':
            j = as_int(args[0]) if args else -1
            if s.op == 'list':
                if not s.args:
                    return I.fail(st, 'IndexError')
                if j is not None and -len(s.args) <= j < len(s.args):
                    l = list(s.args)
                    v = l.pop(j)
                    store(mk('list', *l))
                    return v
                if j is not None:
                    return I.fail(st, 'IndexError')
            if j == -1:
                v = at(s, num(-1))
                store(sslice(s, ZERO, num(-1), NONE))
                return v
            if j == 0:
                v = at(s, ZERO)
                store(sslice(s, ONE, NONE, NONE))
                return v
            raise _i.Undecided('list pop')
        if name == 'clear':
            store(EMPTY)
            return NONE
        if name == 'copy':
            return I.alloc(st, ('list', s))
        if name == 'reverse':
            store(self.rev(s))
            return NONE
        if name == 'sort':
            v = self.sort_(s, kwargs, st, ctx)
            store(v)
            return NONE
        if name == 'index':
            if s.op == 'list':
                res = None
                for j in range(len(s.args) - 1, -1, -1):
                    c = I.truth(self.equal(args[0], s.args[j], st, ctx), st)
                    if res is None:
                        if c is FALSE:
                            continue
                        miss = not_(or_(*[I.truth(self.equal(args[0], e, st, ctx), st) for e in s.args]))
                        I.raise_(st, miss, 'ValueError')
                        res = num(j)
                    else:
                        res = ite(c, num(j), res)
                return res if res is not None else I.fail(st, 'ValueError')
            x = args[0]
            kk = fresh('k')
            if x.op == 'at' and x.args[0] is s:
                pass
            I.raise_(st, not_(member(x, s)), 'ValueError')
            if st.dead:
                return NONE
            return mk('idx', s, x)
        if name == 'count':
            if s.op == 'list':
                return add(*[ite(I.truth(self.equal(args[0], e, st, ctx), st), ONE, ZERO) for e in s.args])
            i = fresh('i')
            return sum_(slen(s), i, eq(at(s, i), args[0]), ONE)
        if name == 'remove':
            if s.op == 'list':
                l = list(s.args)
                for j, e in enumerate(l):
                    d = st.facts.decide(I.truth(self.equal(args[0], e, st, ctx), st))
                    if d is True:
                        del l[j]
                        store(mk('list', *l))
                        return NONE
                    if d is None:
                        raise _i.Undecided('list removal')
                return I.fail(st, 'ValueError')
            raise _i.Undecided('list removal')
        return I.fail(st, 'AttributeError')

    def dict_method(self, r, d, name, args, kwargs, st, ctx):
        I = self.i

        def store(v):
            if r is None:
                raise _i.Undecided('mutation of an input dictionary')
            st.heap[r.args[0]] = ('dict', v)
        if name in ('get', 'setdefault', 'pop') and args:
            args = [self.hash_key(d, args[0], st)] + list(args[1:])
            if st.dead:
                return mk('raise', 'dead')
        if name == 'keys':
            return mk('itemsview', dkeys(d)) if d.op in ('dict', 'dset', 'dictcomp') else mk('itemsview', dkeys(d))
        if name == 'values':
            return mk('itemsview', dvalues(d))
        if name == 'items':
            return mk('itemsview', ditems(d))
        if name == 'get':
            default = args[1] if len(args) > 1 else kwargs.get('default', NONE)
            c = member(args[0], d if d.op in ('dict', 'dset') else dkeys(d)) if d.op != 'sym' else mk('in', args[0], d)
            dd = st.facts.decide(c)
            if dd is False:
                return default
            v = I._strip_raise(dget(d, args[0]))
            if dd is True:
                return v
            return ite(c, v, default)
        if name == 'setdefault':
            default = args[1] if len(args) > 1 else NONE
            c = member(args[0], d if d.op in ('dict', 'dset') else dkeys(d))

            def absent(s):
                if r is None:
                    raise _i.Undecided('mutation of an input dictionary')
                s.heap[r.args[0]] = ('dict', dset(I.obj(s, r)[1], args[0], default))
                return default
            return I.fork(st, c, lambda s: I._strip_raise(dget(d, args[0])), absent)
        if name == 'update':
            v = d
            if args:
                other = I.content(args[0], st)
                if other.op not in ('dict', 'dset', 'dictcomp'):
                    other = self.dict_from_pairs(self.it(args[0], st, ctx), st)
                v = self.dict_update(v, other, st)
            for k, x in kwargs.items():
                v = dset(v, const(k), x)
            store(v)
            return NONE
        if name == 'copy':
            return I.alloc(st, ('dict', d))
        if name == 'clear':
            store(mk('dict'))
            return NONE
        if name == 'pop':
            if d.op == 'dict':
                items, val, und = [], None, False
                for kk, vv in zip(d.args[0::2], d.args[1::2]):
                    e = st.facts.decide(eq(kk, args[0]))
                    if e is True:
                        val = vv
                    elif e is False:
                        items += [kk, vv]
                    else:
                        und = True
                if not und:
                    if val is None:
                        return args[1] if len(args) > 1 else I.fail(st, 'KeyError')
                    store(mk('dict', *items))
                    return val
            raise _i.Undecided('dictionary pop')
        return I.fail(st, 'AttributeError') if name not in DICT_M else unk('dict method')

    def set_method(self, r, s, name, args, kwargs, st, ctx):
        I = self.i

        def store(v):
            if r is None:
                raise _i.Undecided('mutation of an input set')
            st.heap[r.args[0]] = ('set', v)
        if name == 'add':
            store(self.setop('BitOr', s, seq(args[0])))
            return NONE
        if name in ('union', 'update', 'intersection', 'difference', 'symmetric_difference'):
            op = {'union': 'BitOr', 'update': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub', 'symmetric_difference': 'BitXor'}[name]
            v = s
            for a in args:
                v = self.setop(op, v, self.set_content(a, st, ctx))
            if name == 'update':
                store(v)
                return NONE
            return I.alloc(st, ('set', v))
        if name == 'copy':
            return I.alloc(st, ('set', s))
        if name == 'clear':
            store(EMPTY)
            return NONE
        if name == 'isdisjoint':
            o = self.set_content(args[0], st, ctx)
            return not_(self._any(smap(o, lambda x: member(x, s)), st))
        if name in ('remove', 'discard'):
            store(self.setop('Sub', s, seq(args[0])))
            return NONE
        return unk('set method ' + name)

    def arr_method(self, v, name, args, kwargs, st, ctx, ref):
        I = self.i
        if name in ('copy',):
            return I.alloc(st, ('list', v)) if v.op == 'arr' else v
        if name == 'tolist':
            return I.alloc(st, ('list', norm_seq(v.args[0]))) if v.op == 'arr' else mk('call', mk('attr', v, name))
        if name == 'dot':
            return matmul(v, self._arrish(self.val(args[0], st), st))
        if name == 'sum' and v.op == 'arr':
            return self.x_numpy__sum([v] + args, kwargs, st, ctx)
        if name in ('cumsum', 'mean') and v.op == 'arr':
            return getattr(self, 'x_numpy__' + name)([v] + args, kwargs, st, ctx)
        if name == 'fill' and ref is not None:
            st.heap[ref.args[0]] = ('list', map_arr(v, lambda x: args[0]))
            return NONE
        if name == 'mean' and v.op == 'arr':
            return self.x_numpy__mean([v] + args, kwargs, st, ctx)
        if name in ('flatten', 'ravel') and v.op == 'arr':
            l = nd_list(v)
            if l is not None and l.args and l.args[0].op == 'list':
                return mk('arr', concat(*l.args))
            return v
        if name == 'transpose':
            return transpose(v)
        if name == 'item':
            l = nd_list(v) if v.op == 'arr' else None
            while l is not None and l.op == 'list' and len(l.args) == 1:
                l = l.args[0]
            if l is not None and l.op != 'list':
                return l
        if name == 'reshape' and v.op == 'arr':
            sh = args[0] if len(args) == 1 else mk('tuple', *args)
            dims = [as_int(x) for x in self._shape(sh, st, ctx)]
            l = nd_list(v)
            if l is not None and all(x is not None for x in dims):
                flat_ = []

                def fl(x):
                    if x.op == 'list':
                        for y in x.args:
                            fl(y)
                    else:
                        flat_.append(x)
                fl(l)
                if len(dims) == 1:
                    return mk('arr', mk('list', *flat_))
                if len(dims) == 2:
                    a, b = dims
                    if a == -1:
                        a = len(flat_) // b
                    if b == -1:
                        b = len(flat_) // a
                    return mk('arr', mk('list', *[mk('list', *flat_[i * b:(i + 1) * b]) for i in range(a)]))
        return mk('call', mk('attr', I.freeze(v, st), name), *[I.freeze(a, st) for a in args], *kwargs.values())


def _ident(self, a, k, st, ctx):
    return a[0]


def _attrget(self, a, k, st, ctx):
    names, o = a[:-1], a[-1]
    out = []
    for n in names:
        v = o
        for p in n.args[0].split('.'):
            v = self.i.getattr(v, p, st, ctx)
        out.append(v)
    return out[0] if len(out) == 1 else mk('tuple', *out)


def _itemget(self, a, k, st, ctx):
    ks, o = a[:-1], a[-1]
    out = [self.i.getitem(o, n, st, ctx) for n in ks]
    return out[0] if len(out) == 1 else mk('tuple', *out)


setattr(Lib, 'x_%identity', _ident)
setattr(Lib, 'x_%attrget', _attrget)
setattr(Lib, 'x_%itemget', _itemget)


def ssflat(s, f):
    s = norm_seq(s)
    if s.op == 'unk':
        return s
    out = []
    for p in seq_parts(s):
        if p[0] == 'e':
            out.append(f(p[1]))
        elif p[0] == 'm':
            i = fresh('i')
            e = f(p[2](i))
            if p[3] is not None:
                e = ite(p[3](i), e, EMPTY)
            out.append(seqs.flat_b([i], [e], [p[1]]))
        elif p[0] == 'fl':
            i = fresh('i')
            out.append(seqs.flat_b([i], [ssflat(p[2](i), f)], [p[1]]))
        else:
            out.append(ite(p[1], ssflat(p[2], f), ssflat(p[3], f)))
    return concat(*out)
