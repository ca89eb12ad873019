"""Refutation by random interpretation of the value graph (Gulwani and Necula, POPL 2003, 2004).

Two value graphs which the comparison in equiv could not decide are interpreted at a few points of the domain their inputs
and preconditions describe, in exact rational arithmetic, calls of named inputs as free functions.  A point which satisfies
every precondition and at which the graphs have different values refutes their equality.  Agreement proves nothing: the
answer stays undecided.  A construct whose meaning is not modelled here ends the attempt.  The graphs are those the analysis
derived from the source; nothing of the repository is run.
"""
import bisect
import calendar
import datetime
import hashlib
import math
import random
import time
from decimal import Decimal, localcontext, InvalidOperation, Overflow
from fractions import Fraction
from terms import *
import terms as tm
import seqs
import lin


class Abort(Exception):
    pass


class Raise:
    __slots__ = ('cls',)

    def __init__(self, cls):
        self.cls = cls

    def __repr__(self):
        return f'raise {self.cls}'


class RD:
    __slots__ = ('m', 'd')

    def __init__(self, m, d):
        self.m, self.d = m, d

    def __eq__(self, o):
        return isinstance(o, RD) and (self.m, self.d) == (o.m, o.d)

    def __hash__(self):
        return hash(('rd', self.m, self.d))

    def __repr__(self):
        return f'relativedelta(months={self.m}, days={self.d})'


class Obj:
    __slots__ = ('path', 'cls')

    def __init__(self, path, cls):
        self.path, self.cls = path, cls

    def __eq__(self, o):
        return isinstance(o, Obj) and self.path == o.path

    def __hash__(self):
        return hash(('obj', self.path))

    def __repr__(self):
        return self.path


class Rec:
    __slots__ = ('cls', 'vals')

    def __init__(self, cls, vals):
        self.cls, self.vals = cls, vals

    def __eq__(self, o):
        return isinstance(o, Rec) and self.cls == o.cls and self.vals == o.vals

    def __hash__(self):
        return hash(('rec', self.cls, self.vals))

    def __repr__(self):
        return f'{self.cls.split(":")[-1]}{self.vals}'


class D:
    """dictionary in insertion order"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, D) and len(self.items) == len(o.items) and dict(self.items) == dict(o.items)

    def __hash__(self):
        return hash(('dict', self.items))

    def __repr__(self):
        return '{' + ', '.join(f'{k}: {v}' for k, v in self.items) + '}'


class Enum:
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Enum) and self.key == o.key

    def __hash__(self):
        return hash(('enum', self.key))

    def __repr__(self):
        return self.key[-1]


class Free:
    """a function input: any value of its type, the same at the same arguments"""
    __slots__ = ('path', 'typ')

    def __init__(self, path, typ):
        self.path, self.typ = path, typ

    def __eq__(self, o):
        return isinstance(o, Free) and self.path == o.path

    def __hash__(self):
        return hash(('free', self.path))

    def __repr__(self):
        return self.path


class Root(tuple):
    """the outcome of solving an equation"""


def dec(x):
    """as a decimal of the current precision"""
    if isinstance(x, Decimal):
        return x
    if isinstance(x, float):
        return Decimal(x)
    return Decimal(x.numerator) / Decimal(x.denominator)


LIMIT = 1500
NUM = (int, Fraction, float, Decimal)
INEXACT = (float, Decimal)
_fv = {}


def fv(t):
    r = _fv.get(t)
    if r is None:
        if t.op == 'bv':
            r = frozenset((t.args[0],))
        elif t.op in BINDERS:
            vs, bodies, pre = binder_parts(t)
            r = frozenset().union(*[fv(b) for b in bodies]) - {v.args[0] for v in vs}
            r = r.union(*[fv(p) for p in pre if isinstance(p, T)])
        else:
            r = frozenset().union(*[fv(a) for a in t.args if isinstance(a, T)])
        _fv[t] = r
    return r


BASE = datetime.date(2023, 1, 1).toordinal()
SORTED_BY = ('unadjusted_payment_date', 'payment_date', 'knot', 'start_accrual', 'date', 'purchase_date', 'maturity_date', 'reference_date')


def is_num(v):
    return isinstance(v, NUM) and not isinstance(v, bool)


class Point:
    def __init__(self, interp, seed, deadline, vary):
        self.it = interp
        self.seed = seed
        self.deadline = deadline
        self.memo = {}
        self.drawn = {}
        self.ticks = 0
        self.looked = set()
        self.mins = {}
        self.solving = 0
        self.vary = vary
        r = random.Random(seed)
        self.base = BASE + r.randrange(-900, 1500)
        self.scale = r.choice((3, 10, 40, 200, 800))
        self.longest = r.choice((1, 2, 3, 4))

    def rng(self, path):
        return random.Random(int(hashlib.sha256(f'{self.seed}/{path}'.encode()).hexdigest()[:12], 16))

    # ------------------------------------------------------------ inputs
    def draw(self, path, typ):
        key = (path, typ)
        if key not in self.drawn:
            self.drawn[key] = self._draw(path, typ)
        return self.drawn[key]

    def day(self, r):
        d = self.base + r.randrange(-self.scale, self.scale + 1)
        if r.random() < .45:
            x = datetime.date.fromordinal(d)
            d = datetime.date(x.year, x.month, r.choice((1, min(31, calendar.monthrange(x.year, x.month)[1]), calendar.monthrange(x.year, x.month)[1], 15))).toordinal()
        return Fraction(d)

    def _draw(self, path, typ):
        r = self.rng(path)
        if typ is None:
            raise Abort('untyped ' + path)
        if typ.startswith('Optional:'):
            return None if r.random() < .3 else self.draw(path, typ[9:])
        if typ in ('num', 'float'):
            if r.random() < .3:
                return Fraction(r.randrange(0, 4))
            return Fraction(r.randrange(-16, 96), 32) if r.random() < .7 else Fraction(r.randrange(1, 400), 4)
        if typ in ('pos', 'pos_int'):
            return Fraction(r.randrange(1, 96), 32) if typ == 'pos' else Fraction(r.randrange(1, 7))
        if typ == 'nonneg':
            return Fraction(r.randrange(0, 64), 32)
        if typ == 'int':
            return Fraction(r.randrange(-4, 9))
        if typ == 'bool':
            return r.random() < .5
        if typ == 'str':
            return 'text%d' % r.randrange(1000)
        if typ == 'date':
            return self.day(r)
        if typ == 'datetime':
            return self.day(r) + (Fraction(r.randrange(0, 24), 24) if r.random() < .6 else 0)
        if typ == 'rd':
            k = r.random()
            g = r.choice((1, 1, 1, -1))
            if k < .5:
                return RD(Fraction(g * r.choice((1, 3, 6, 12, 2))), Fraction(0))
            return RD(Fraction(0), Fraction(g * r.choice((1, 2, 7, 30)))) if k < .8 else RD(Fraction(r.choice((1, 3))), Fraction(r.choice((1, 5))))
        if typ.startswith('seq:'):
            et = typ[4:]
            n = r.randrange(0, self.longest + 1)
            out = [self.draw(f'{path}[{k}]', et) for k in range(n)]
            if r.random() < .8:
                if et in ('date', 'datetime'):
                    out = sorted(set(out)) if r.random() < .8 else sorted(out)
                elif et.startswith('obj:'):
                    for name in SORTED_BY:
                        ty = self.it.ann_type(et[4:], name)
                        if ty in ('date', 'datetime'):
                            vals = sorted(self.attr(o, name) for o in out)
                            for o, v in zip(out, vals):
                                self.drawn[(f'{o.path}.{name}', ty)] = v
                            break
            return tuple(out)
        if typ.startswith('dict:'):
            _, k, v = typ.split(':', 2)
            items = {}
            for j in range(r.randrange(0, 4)):
                items[self.draw(f'{path}.key{j}', k)] = self.draw(f'{path}.value{j}', v)
            return D(items.items())
        if typ.startswith('obj:'):
            return Obj(path, typ[4:])
        if typ.startswith('enum:') or typ in self.enums():
            ms = self.enums().get(typ.replace('enum:', ''))
            if ms:
                return Enum(r.choice(ms))
        if typ.startswith('fn:') or typ == 'fn':
            return Free(path, typ[3:] or 'num')
        c = self.it.p.find_class(typ) if ':' not in typ else None
        if c is not None:
            return Obj(path, typ)
        raise Abort('type ' + typ)

    def enums(self):
        return {}

    def free(self, f, args):
        path = f'{f.path}({", ".join("%.9g" % a if isinstance(a, INEXACT) else repr(a) for a in args)})'
        if f.typ == 'num':
            r = self.rng(path)
            return Fraction(r.randrange(8, 64), 32)
        return self.draw(path, f.typ)

    def attr(self, o, name):
        if isinstance(o, Raise):
            return o
        if isinstance(o, Rec):
            fs = seqs.FIELDS.get(o.cls)
            if fs and name in fs:
                return o.vals[fs.index(name)]
            raise Abort('field ' + name)
        if isinstance(o, Obj):
            if o.cls.endswith('Holiday'):
                self.holidays('field')
            ty = self.it.ann_type(o.cls, name)
            if ty is None:
                raise Abort(f'attribute {o.cls}.{name}')
            key = (f'{o.path}.{name}', ty)
            if key not in self.drawn and ty in ('date', 'datetime'):
                r = self.rng(key[0] + '!')
                near = {'payment_date': ('unadjusted_payment_date', 0, 4), 'end_accrual': ('start_accrual', 1, 100), 'payment': ('end_accrual', 0, 4)}.get(name)
                if near and self.it.ann_type(o.cls, near[0]) == ty:
                    self.drawn[key] = self.attr(o, near[0]) + r.randrange(near[1], near[2])
            return self.draw(*key)
        raise Abort('attribute of ' + type(o).__name__)

    # ------------------------------------------------------------ terms
    def ev(self, t, env):
        f = fv(t)
        key = (t.uid, tuple((b, env[b]) for b in sorted(f))) if f else t.uid
        if key in self.memo:
            return self.memo[key]
        self.ticks += 1
        if self.ticks % 256 == 0 and time.monotonic() > self.deadline:
            raise Abort('time')
        m = getattr(self, 'op_' + t.op, None)
        if m is None:
            raise Abort('operation ' + t.op)
        v = m(t, env)
        if v is NotImplemented:
            raise Abort('operation ' + t.op)
        self.memo[key] = v
        return v

    def vals(self, ts, env):
        out = [self.ev(x, env) for x in ts]
        for x in out:
            if isinstance(x, Raise):
                return x
        return out

    def op_num(self, t, env):
        return t.args[0]

    def op_const(self, t, env):
        v = t.args[0]
        if isinstance(v, str) and v.endswith('inf#'):
            return float(v[:-1])
        if v == 'nan#':
            raise Abort('nan')
        return v

    def op_enum(self, t, env):
        return Enum(t.args)

    def op_pyfn(self, t, env):
        return Enum(('pyfn',) + tuple(str(a) for a in t.args))
    op_fn = op_cls = op_pyfn

    def op_sym(self, t, env):
        n = t.args[0]
        if n in ('%month', '%year'):
            return RD(Fraction(1 if n == '%month' else 12), Fraction(0))
        if n.startswith('%') and not t.args[1]:
            raise Abort('symbol ' + n)
        return self.draw(n, t.args[1])

    def op_bv(self, t, env):
        return env[t.args[0]]

    def op_raise(self, t, env):
        return Raise(t.args[0])

    def op_poly(self, t, env):
        tot = Fraction(0)
        for k, c in zip(t.args[0::2], t.args[1::2]):
            p = c
            for a, e in zip(k.args[0::2], k.args[1::2]):
                x = self.ev(a, env)
                if isinstance(x, Raise):
                    return x
                p = self.mul(p, self.pow(x, e))
            tot = self.add(tot, p)
        return tot

    def add(self, a, b):
        if isinstance(a, RD) or isinstance(b, RD):
            a, b = [x if isinstance(x, RD) else RD(Fraction(0), x) for x in (a, b)]
            return RD(a.m + b.m, a.d + b.d)
        if isinstance(a, bool) or isinstance(b, bool):
            raise Abort('sum of truth values')
        if is_num(a) and is_num(b):
            return dec(a) + dec(b) if isinstance(a, INEXACT) or isinstance(b, INEXACT) else a + b
        raise Abort(f'sum of {type(a).__name__} and {type(b).__name__}')

    def mul(self, a, b):
        if isinstance(b, RD):
            a, b = b, a
        if isinstance(a, RD):
            if not is_num(b) or isinstance(b, INEXACT):
                raise Abort('product')
            return RD(a.m * b, a.d * b)
        if is_num(a) and is_num(b):
            if a == 0 or b == 0:
                return Fraction(0)
            return dec(a) * dec(b) if isinstance(a, INEXACT) or isinstance(b, INEXACT) else a * b
        raise Abort('product of ' + type(a).__name__)

    def pow(self, x, e):
        if e == 1:
            return x
        if not is_num(x):
            raise Abort('power of ' + type(x).__name__)
        if x == 0:
            if e > 0:
                return Fraction(0)
            raise Abort('division by zero')
        if isinstance(e, Fraction) and e.denominator == 1 and not isinstance(x, INEXACT) and abs(e) < 64:
            return Fraction(x) ** int(e)
        if x < 0 and not (isinstance(e, Fraction) and e.denominator == 1):
            raise Abort('root of a negative number')
        try:
            return dec(x) ** dec(e)
        except (Overflow, InvalidOperation):
            raise Abort('overflow')

    def number(self, t, env):
        x = self.ev(t, env)
        if not isinstance(x, Raise) and not is_num(x):
            raise Abort('number expected, got ' + type(x).__name__)
        return x

    def op_exp(self, t, env):
        x = self.number(t.args[0], env)
        if isinstance(x, Raise):
            return x
        if x == 0:
            return Fraction(1)
        if abs(x) > 5000:
            raise Abort('overflow')
        try:
            return dec(x).exp()
        except (Overflow, InvalidOperation):
            raise Abort('overflow')

    def op_log(self, t, env):
        x = self.number(t.args[0], env)
        if isinstance(x, Raise):
            return x
        if x <= 0:
            raise Abort('log')
        return Fraction(0) if x == 1 else dec(x).ln()

    def op_pow(self, t, env):
        v = self.vals(t.args, env)
        return v if isinstance(v, Raise) else self.pow(v[0], v[1])

    def sign(self, x):
        if isinstance(x, INEXACT):
            if abs(x) < Decimal('1e-15'):
                raise Abort('sign too close to call')
        elif not is_num(x):
            raise Abort('sign of ' + type(x).__name__)
        return (x > 0) - (x < 0)

    def op_pos(self, t, env):
        x = self.ev(t.args[0], env)
        return x if isinstance(x, Raise) else self.sign(x) > 0

    def op_zero(self, t, env):
        x = self.ev(t.args[0], env)
        if isinstance(x, RD):
            return x.m == 0 and x.d == 0
        return x if isinstance(x, Raise) else self.sign(x) == 0

    def op_eq(self, t, env):
        v = self.vals(t.args, env)
        if isinstance(v, Raise):
            return v
        for x in v:
            if isinstance(x, INEXACT):
                raise Abort('equality of inexact numbers')
        for x in v:
            if isinstance(x, (Rec, Obj)) and not any(y is None for y in v):
                raise Abort('equality of objects')
        return v[0] == v[1]

    def truth(self, t, env):
        x = self.ev(t, env)
        if isinstance(x, Raise) or isinstance(x, bool):
            return x
        raise Abort('truth of ' + type(x).__name__)

    def op_not(self, t, env):
        x = self.truth(t.args[0], env)
        return x if isinstance(x, Raise) else not x

    def op_ite(self, t, env):
        while True:
            c = self.truth(t.args[0], env)
            if isinstance(c, Raise):
                return c
            t = t.args[1] if c else t.args[2]
            if t.op != 'ite':
                return self.ev(t, env)

    def op_list(self, t, env):
        v = self.vals(t.args, env)
        return v if isinstance(v, Raise) else tuple(v)
    op_tuple = op_list

    def op_rec(self, t, env):
        v = self.vals(t.args[1:], env)
        return v if isinstance(v, Raise) else Rec(t.args[0], tuple(v))

    def op_concat(self, t, env):
        v = self.vals(t.args, env)
        if isinstance(v, Raise):
            return v
        if not all(isinstance(x, tuple) for x in v):
            raise Abort('concatenation')
        return tuple(e for x in v for e in x)

    def count(self, t, env):
        n = self.ev(t, env)
        if isinstance(n, Raise):
            return n
        if not is_num(n) or isinstance(n, INEXACT) or Fraction(n).denominator != 1:
            raise Abort('count')
        if n > LIMIT:
            raise Abort('long sequence')
        return max(int(n), 0)

    def each(self, t, env):
        vs, bodies, pre = binder_parts(t)
        n = self.count(pre[0], env)
        if isinstance(n, Raise):
            yield n
            return
        b = vs[0].args[0]
        for j in range(n):
            e = dict(env)
            e[b] = Fraction(j)
            yield bodies, e

    def op_comp(self, t, env):
        out = []
        for x in self.each(t, env):
            if isinstance(x, Raise):
                return x
            v = self.ev(x[0][0], x[1])
            if isinstance(v, Raise):
                return v
            out.append(v)
        return tuple(out)

    def op_filt(self, t, env):
        out = []
        for x in self.each(t, env):
            if isinstance(x, Raise):
                return x
            g = self.truth(x[0][0], x[1])
            if isinstance(g, Raise):
                return g
            if g:
                v = self.ev(x[0][1], x[1])
                if isinstance(v, Raise):
                    return v
                out.append(v)
        return tuple(out)

    def op_flat(self, t, env):
        out = []
        for x in self.each(t, env):
            if isinstance(x, Raise):
                return x
            v = self.ev(x[0][0], x[1])
            if isinstance(v, Raise):
                return v
            if not isinstance(v, tuple):
                raise Abort('flat')
            out += v
        return tuple(out)

    def op_sumc(self, t, env):
        tot = Fraction(0)
        for x in self.each(t, env):
            if isinstance(x, Raise):
                return x
            g = self.truth(x[0][0], x[1])
            if isinstance(g, Raise):
                return g
            if g:
                v = self.ev(x[0][1], x[1])
                if isinstance(v, Raise):
                    return v
                tot = self.add(tot, v)
        return tot

    def op_prodc(self, t, env):
        tot = Fraction(1)
        for x in self.each(t, env):
            if isinstance(x, Raise):
                return x
            v = self.ev(x[0][0], x[1])
            if isinstance(v, Raise):
                return v
            tot = self.mul(tot, v)
        return tot

    def op_exists(self, t, env):
        for x in self.each(t, env):
            if isinstance(x, Raise):
                return x
            g = self.truth(x[0][0], x[1])
            if isinstance(g, Raise) or g:
                return g
        return False

    def op_iters(self, t, env):
        vs, bodies, pre = binder_parts(t)
        e = dict(env)
        for j in range(LIMIT):
            e[vs[0].args[0]] = Fraction(j)
            g = self.truth(bodies[0], dict(e))
            if isinstance(g, Raise):
                return g
            if not g:
                return Fraction(j)
        raise Abort('long loop')

    def op_iterate(self, t, env):
        vs, bodies, pre = binder_parts(t)
        idx = self.count(pre[-1], env)
        k = self.count(pre[-2], env)
        if isinstance(k, Raise):
            return k
        cur = self.vals(pre[:-2], env)
        if isinstance(cur, Raise):
            return cur
        for q in range(k):
            e = dict(env)
            for v, x in zip(vs[:-1], cur):
                e[v.args[0]] = x
            e[vs[-1].args[0]] = Fraction(q)
            cur = self.vals(bodies, e)
            if isinstance(cur, Raise):
                return cur
        return cur[idx]

    def sort_key(self, v):
        if isinstance(v, tuple):
            return tuple(self.sort_key(x) for x in v)
        if isinstance(v, INEXACT):
            raise Abort('order of inexact numbers')
        if is_num(v) or isinstance(v, str):
            return v
        raise Abort('order')

    def keyed(self, t, s, env):
        vs, bodies, pre = binder_parts(t)
        out = []
        for x in s:
            e = dict(env)
            e[vs[0].args[0]] = x
            k = self.ev(bodies[0], e)
            if isinstance(k, Raise):
                return k
            out.append((self.sort_key(k), x))
        return out

    def op_sortedk(self, t, env):
        pre = binder_parts(t)[2]
        s = self.ev(pre[0], env)
        if isinstance(s, Raise):
            return s
        if not isinstance(s, tuple):
            raise Abort('sort')
        ks = self.keyed(t, s, env)
        if isinstance(ks, Raise):
            return ks
        return tuple(x for k, x in sorted(ks, key=lambda p: p[0], reverse=len(pre) > 1))

    def op_extk(self, t, env):
        pre = binder_parts(t)[2]
        s = self.ev(pre[1], env)
        if isinstance(s, Raise):
            return s
        if not isinstance(s, tuple) or not s:
            raise Abort('extremum')
        ks = self.keyed(t, s, env)
        if isinstance(ks, Raise):
            return ks
        return (min if pre[0].args[0] == 'min' else max)(ks, key=lambda p: p[0])[1]

    def ext(self, t, env, f):
        s = self.ev(t.args[0], env)
        if isinstance(s, Raise):
            return s
        if not isinstance(s, tuple) or not s or not all(is_num(x) and not isinstance(x, INEXACT) for x in s):
            raise Abort('extremum')
        return f(s)

    def op_minseq(self, t, env):
        return self.ext(t, env, min)

    def op_maxseq(self, t, env):
        return self.ext(t, env, max)

    def op_dict(self, t, env):
        v = self.vals(t.args, env)
        if isinstance(v, Raise):
            return v
        d = {}
        for k, x in zip(v[0::2], v[1::2]):
            self.hashable(k)
            d[k] = x
        return D(d.items())

    def hashable(self, k):
        if isinstance(k, (*INEXACT, Rec, Obj)) or isinstance(k, tuple) and any(isinstance(x, (*INEXACT, Rec, Obj)) for x in k):
            raise Abort('key')

    def op_dset(self, t, env):
        v = self.vals(t.args, env)
        if isinstance(v, Raise):
            return v
        if not isinstance(v[0], D):
            raise Abort('dset')
        self.hashable(v[1])
        d = dict(v[0].items)
        d[v[1]] = v[2]
        return D(d.items())

    def op_dictcomp(self, t, env):
        d = {}
        for x in self.each(t, env):
            if isinstance(x, Raise):
                return x
            g = self.truth(x[0][0], x[1])
            if isinstance(g, Raise):
                return g
            if g:
                v = self.vals(x[0][1:], x[1])
                if isinstance(v, Raise):
                    return v
                self.hashable(v[0])
                d[v[0]] = v[1]
        return D(d.items())

    def op_get(self, t, env):
        v = self.vals(t.args, env)
        if isinstance(v, Raise):
            return v
        if not isinstance(v[0], D):
            raise Abort('get')
        self.hashable(v[1])
        d = dict(v[0].items)
        if v[1] not in d:
            return Raise('KeyError')
        return d[v[1]]

    def op_keys(self, t, env):
        d = self.ev(t.args[0], env)
        if isinstance(d, Raise):
            return d
        if not isinstance(d, D):
            raise Abort('keys')
        return tuple(k for k, x in d.items)

    def op_in(self, t, env):
        v = self.vals(t.args, env)
        if isinstance(v, Raise):
            return v
        x, s = v
        self.hashable(x)
        if isinstance(s, D):
            return x in dict(s.items)
        if isinstance(s, tuple):
            for y in s:
                self.hashable(y)
            return x in s
        raise Abort('in')

    def op_arr(self, t, env):
        return self.ev(t.args[0], env)

    def op_setof(self, t, env):
        """the members, in the order of their values"""
        s = self.ev(t.args[0], env)
        if isinstance(s, Raise):
            return s
        if not isinstance(s, tuple):
            raise Abort('set')
        if any(isinstance(x, INEXACT) or not is_num(x) for x in s) and len(s) > 1:
            raise Abort('set')
        return tuple(sorted(set(s)))

    def op_uniq(self, t, env):
        s = self.ev(t.args[0], env)
        if isinstance(s, Raise):
            return s
        for x in s:
            self.hashable(x)
        return tuple(dict.fromkeys(s))

    def op_reversed(self, t, env):
        s = self.ev(t.args[0], env)
        return s if isinstance(s, Raise) else tuple(reversed(s))

    def op_slice(self, t, env):
        v = self.vals(t.args, env)
        if isinstance(v, Raise):
            return v
        s = v[0]
        if not isinstance(s, tuple):
            raise Abort('slice')
        lo, hi, st = [None if x is None else int(x) if is_num(x) and Fraction(x).denominator == 1 else Abort for x in v[1:4]]
        if Abort in (lo, hi, st):
            raise Abort('slice')
        return s[slice(lo, hi, st)]

    def op_len(self, t, env):
        s = self.ev(t.args[0], env)
        if isinstance(s, Raise):
            return s
        if isinstance(s, D):
            return Fraction(len(s.items))
        if isinstance(s, tuple):
            return Fraction(len(s))
        raise Abort('length of ' + type(s).__name__)

    def op_at(self, t, env):
        v = self.vals(t.args, env)
        if isinstance(v, Raise):
            return v
        s, i = v
        if isinstance(s, Root):
            if i == 'x':
                return tuple(s)
            raise Abort('field of a root')
        if isinstance(s, Rec) and is_num(i) and Fraction(i).denominator == 1 and 0 <= i < len(s.vals):
            return s.vals[int(i)]
        if not isinstance(s, tuple) or not is_num(i) or isinstance(i, INEXACT) or Fraction(i).denominator != 1:
            raise Abort('element of ' + type(s).__name__)
        i = int(i)
        if not 0 <= i < len(s):
            raise Abort('index out of range')
        return s[i]

    def op_attr(self, t, env):
        o = self.ev(t.args[0], env)
        return self.attr(o, t.args[1])

    def bis(self, t, env, right):
        v = self.vals(t.args, env)
        if isinstance(v, Raise):
            return v
        s, x = v
        for y in (x,) + s:
            if not is_num(y) or isinstance(y, INEXACT):
                raise Abort('bisect')
        if any(a > b for a, b in zip(s, s[1:])):
            raise Abort('bisect in an unordered sequence')
        import bisect
        return Fraction((bisect.bisect_right if right else bisect.bisect_left)(s, x))

    def op_bisect_l(self, t, env):
        return self.bis(t, env, False)

    def op_bisect_r(self, t, env):
        return self.bis(t, env, True)

    # ------------------------------------------------------------ dates
    def date(self, t, env):
        x = self.ev(t, env)
        if isinstance(x, Raise):
            return x
        if not is_num(x) or isinstance(x, INEXACT):
            raise Abort('day expected')
        f = math.floor(x)
        if not 400 < f < 3600000:
            raise Abort('day out of range')
        return datetime.date.fromordinal(f), x - f

    def part(self, t, env, f):
        d = self.date(t.args[0], env)
        return d if isinstance(d, Raise) else f(*d)

    def op_year(self, t, env):
        return self.part(t, env, lambda d, f: Fraction(d.year))

    def op_month(self, t, env):
        return self.part(t, env, lambda d, f: Fraction(d.month))

    def op_day(self, t, env):
        return self.part(t, env, lambda d, f: Fraction(d.day))

    def op_weekday(self, t, env):
        return self.part(t, env, lambda d, f: Fraction(d.weekday()))

    def op_dateof(self, t, env):
        return self.part(t, env, lambda d, f: Fraction(d.toordinal()))

    def op_hour(self, t, env):
        return self.part(t, env, lambda d, f: Fraction(math.floor(f * 24)))

    def op_minute(self, t, env):
        return self.part(t, env, lambda d, f: Fraction(math.floor(f * 1440) % 60))

    def op_second(self, t, env):
        return self.part(t, env, lambda d, f: Fraction(math.floor(f * 86400) % 60))

    def ints(self, ts, env):
        v = self.vals(ts, env)
        if isinstance(v, Raise):
            return v
        if not all(is_num(x) and not isinstance(x, INEXACT) and Fraction(x).denominator == 1 for x in v):
            raise Abort('whole numbers expected')
        return [int(x) for x in v]

    def op_mkdate(self, t, env):
        v = self.ints(t.args, env)
        if isinstance(v, Raise):
            return v
        try:
            return Fraction(datetime.date(*v).toordinal())
        except ValueError:
            raise Abort('no such day')
    op_mkdatetime = op_mkdate

    def op_lastday(self, t, env):
        v = self.ints(t.args, env)
        if isinstance(v, Raise):
            return v
        if not 1 <= v[1] <= 12 or not 1 < v[0] < 9999:
            raise Abort('no such month')
        return Fraction(calendar.monthrange(*v)[1])

    def op_firstwd(self, t, env):
        v = self.ints(t.args, env)
        if isinstance(v, Raise):
            return v
        if not 1 <= v[1] <= 12 or not 1 < v[0] < 9999:
            raise Abort('no such month')
        return Fraction(calendar.monthrange(*v)[0])

    def op_mod(self, t, env):
        v = self.vals(t.args, env)
        if isinstance(v, Raise):
            return v
        if any(isinstance(x, INEXACT) or not is_num(x) for x in v) or v[1] == 0:
            raise Abort('mod')
        return Fraction(v[0]) % v[1]

    def rounding(self, t, env, f):
        x = self.ev(t.args[0], env)
        if isinstance(x, Raise):
            return x
        if not is_num(x):
            raise Abort('rounding')
        if isinstance(x, INEXACT) and abs(dec(x) - round(dec(x))) < Decimal('1e-15'):
            raise Abort('rounding too close to call')
        return Fraction(f(x))

    def op_int(self, t, env):
        return self.rounding(t, env, math.trunc)

    def op_floor(self, t, env):
        return self.rounding(t, env, math.floor)

    def op_ceil(self, t, env):
        return self.rounding(t, env, math.ceil)

    def op_dateadd(self, t, env):
        r = self.ev(t.args[1], env)
        d = self.date(t.args[0], env)
        if isinstance(d, Raise):
            return d
        if isinstance(r, Raise):
            return r
        return self.dateadd(d, r)

    def dateadd(self, d, r):
        d, f = d
        if is_num(r):
            r = RD(Fraction(0), r)
        if not isinstance(r, RD) or r.m.denominator != 1:
            raise Abort('dateadd')
        k = d.year * 12 + d.month - 1 + int(r.m)
        y, m = divmod(k, 12)
        if not 1 < y < 9999:
            raise Abort('day out of range')
        return datetime.date(y, m + 1, min(d.day, calendar.monthrange(y, m + 1)[1])).toordinal() + f + r.d

    # ------------------------------------------------------------ calls
    def op_call(self, t, env):
        f = t.args[0]
        if f.op == 'fn':
            name = f.args[-1]
            m = getattr(self, 'fn_' + name.split('.')[-1], None)
            if name.split('.')[-1] in self.OF_MODEL:
                return self.of_model(name.split('.')[-1], t, env)
            if m is None:
                raise Abort('call of ' + name)
            v = self.vals(t.args[1:], env)
            return v if isinstance(v, Raise) else m(*v)
        if f.op in ('sym', 'bv', 'at', 'attr', 'get'):
            v = self.vals(t.args, env)
            if isinstance(v, Raise):
                return v
            if isinstance(v[0], Free):
                return self.free(v[0], v[1:])
            if isinstance(v[0], Obj):
                ty = None
                c = self.it.p.find_class(v[0].cls)
                fi = c.find('__call__') if c is not None else None
                if fi is not None:
                    return self.free(Free(v[0].path, 'num'), v[1:])
        if f.op == 'call' and f.args[0].op == 'pyfn' and f.args[0].args[0] == 'scipy.interpolate.interp1d':
            if self.solving and len(t.args) == 2:
                return self.near(f, t, env)
            v = self.vals(f.args[1:] + t.args[1:], env)
            return v if isinstance(v, Raise) else self.interp(v)
        if f.op == 'pyfn' and f.args[0] == 'scipy.optimize.minimize':
            return self.minimiser(t, env)
        if f.op == 'pyfn' and f.args[0] == 'scipy.optimize.root':
            return self.root(t, env)
        if f.op == 'pyfn' and f.args[0] == 'last trial':
            v = self.ev(t.args[1], env)
            return v if isinstance(v, Raise) else tuple(self.free(Free('last trial', 'num'), [x]) for x in v)
        if f.op == 'pyfn' and str(f.args[0]).startswith('random.'):
            v = self.vals(t.args[1:], env)
            return v if isinstance(v, Raise) else self.free(Free(str(f.args[0]), 'num'), v)
        raise Abort('call of ' + show(f)[:60])

    OF_MODEL = ('yield_volatility', 'zero_coupon_bond_price')
    PARAMETERS = ('reversion_level', 'reversion_matrix', 'C_mat', 'short_rate_coefficients', 'short_rate_intercept', '_start_date_time', '_day_count_convention')

    def of_model(self, name, t, env):
        """a quantity of a short rate model: some function of the parameters that determine it and of the dates"""
        m = t.args[1]
        if m.op != 'inst':
            raise Abort('call of ' + name)
        at = dict(zip([k.args[0] for k in m.args[1::2]], m.args[2::2]))
        need = self.PARAMETERS + (('starting_state_variables',) if name != 'yield_volatility' else ())
        if any(k not in at for k in need):
            raise Abort('call of ' + name)
        v = self.vals(tuple(at[k] for k in need) + t.args[2:], env)
        if isinstance(v, Raise):
            return v

        def flat(x):
            if is_num(x):
                return str(dec(x).quantize(Decimal('1e-20')))
            return [flat(y) for y in x] if isinstance(x, (tuple, list)) else repr(x)
        h = hashlib.sha256(repr((name, flat(v))).encode()).hexdigest()
        return Fraction(1 + int(h[:8], 16) % 4094, 4096)

    def minimiser(self, t, env):
        """some minimiser of the problem: a vector determined by how the objective orders a few points and by the constraints there, so
        that it is the same for the same problem however it is written (a monotone function of the objective, a multiple of a constraint)"""
        key = ('minimise', t.uid)
        if not env and key in self.mins:
            return self.mins[key]
        n = self.ev(t.args[4], env)
        if len(t.args) > 5 or not is_num(n) or not 0 < n < 12:
            raise Abort('minimisation')
        obj, eqs, ineqs, was, memo = [], [[] for _ in t.args[2].args], [[] for _ in t.args[3].args], self.drawn.get(('%w', 'ndarray')), self.memo
        try:
            for q in range(9):
                r = random.Random(q)
                self.drawn[('%w', 'ndarray')] = tuple(Fraction(r.randrange(1, 64), 64) for _ in range(int(n)))
                self.memo = {}
                v = [self.ev(x, env) for x in (t.args[1],) + t.args[2].args + t.args[3].args]
                if not all(is_num(x) for x in v):
                    raise Abort('minimisation')
                obj.append(v[0])
                for c, x in zip(eqs + ineqs, v[1:]):
                    c.append(x)
        finally:
            self.memo = memo
            self.drawn.pop(('%w', 'ndarray'), None)
            if was is not None:
                self.drawn[('%w', 'ndarray')] = was
        d = [dec(x) for x in obj]
        top = max(abs(x) for x in d)
        order = sorted(range(len(d)), key=lambda i: d[i])
        if top and any(abs(d[i] - d[j]) < top * Decimal('1e-25') for i, j in zip(order, order[1:])):
            raise Abort('minimisation')

        def ratio(c, sign):
            c = [dec(x) for x in c]
            z = c[0] if sign else abs(c[0])
            if abs(z) < Decimal('1e-20'):
                raise Abort('minimisation')
            return [str((x / z).quantize(Decimal('1e-20'))) for x in c]
        cs = [sorted(ratio(c, True) for c in eqs), sorted(ratio(c, False) for c in ineqs)]
        h = hashlib.sha256(repr((int(n), order, cs)).encode()).hexdigest()
        out = tuple(Fraction(1 + int(hashlib.sha256(f'{h}/{j}'.encode()).hexdigest()[:8], 16) % 4094, 4096) for j in range(int(n)))
        if not env:
            self.mins[key] = out
        return out

    GRID = [Decimal(x) for x in ('0.003', '0.01', '0.03', '0.1', '0.3', '0.8', '2', '6', '20')]

    def root(self, t, env):
        """the root of a function of one unknown which is strictly monotone over a wide range and changes sign in it"""
        n = self.ev(t.args[2], env)
        if n not in (1, 2, 3) or t.args[1].op != 'lam':
            raise Abort('root')
        vs, bodies, _ = binder_parts(t.args[1])

        def f(*xs):
            v = self.ev(bodies[0], {**env, vs[0].args[0]: xs})
            while isinstance(v, tuple) and len(v) == 1:
                v = v[0]
            v = v if isinstance(v, tuple) else (v,)
            if len(v) != n or not all(is_num(x) for x in v):
                raise Abort('root')
            return [dec(x) for x in v] if n > 1 else dec(v[0])
        self.solving += 1
        try:
            return self.solve(f) if n == 1 else self.system(f, int(n))
        finally:
            self.solving -= 1

    def system(self, f, n):
        """the root of a system to which Newton's method leads from several places"""
        out = None
        for start in ('0', '0.2', '-0.1'):
            x = [Decimal(start)] * n
            for _ in range(14):
                y = f(*x)
                if max(abs(v) for v in y) < Decimal('1e-32'):
                    break
                h = Decimal('1e-22')
                rows = [[] for _ in range(n)]
                for j in range(n):
                    for r, v, w in zip(rows, f(*(x[:j] + [x[j] + h] + x[j + 1:])), y):
                        r.append((v - w) / h)
                m = [r + [-w] for r, w in zip(rows, y)]
                for c in range(n):
                    q = max(range(c, n), key=lambda i: abs(m[i][c]))
                    if abs(m[q][c]) < Decimal('1e-12'):
                        raise Abort('singular system')
                    m[c], m[q] = m[q], m[c]
                    for i in range(n):
                        if i != c:
                            w = m[i][c] / m[c][c]
                            m[i] = [u - w * v for u, v in zip(m[i], m[c])]
                step = [m[i][n] / m[i][i] for i in range(n)]
                top = max(abs(s) for s in step)
                x = [u + (s if top <= 1 else s / top) for u, s in zip(x, step)]
            else:
                raise Abort('no convergence')
            if out is not None and max(abs(u - v) for u, v in zip(out, x)) > Decimal('1e-18'):
                raise Abort('several roots')
            out = x
        return Root(out)

    def solve(self, f):
        pts = {Decimal(0): f(Decimal(0))}
        for sign in (1, -1):
            for g in self.GRID:
                try:
                    pts[g * sign] = f(g * sign)
                except Abort as e:
                    if str(e) == 'time':
                        raise
                    break
        xs = sorted(pts)
        ys = [pts[x] for x in xs]
        up = [p < q for p, q in zip(ys, ys[1:])]
        if len(xs) < 6 or any(p == q for p, q in zip(ys, ys[1:])) or any(u != up[0] for u in up) or ys[0] * ys[-1] >= 0:
            raise Abort('no single root in sight')
        k = next(j for j, y in enumerate(ys) if y * ys[0] <= 0)
        a, b, fa, fb = xs[k - 1], xs[k], ys[k - 1], ys[k]
        side = 0
        for _ in range(200):
            if fb == 0 or fa == 0 or abs(b - a) < Decimal('1e-30'):
                break
            c = (a * fb - b * fa) / (fb - fa)
            if not a < c < b:
                c = (a + b) / 2
            fc = f(c)
            if abs(c - a) < Decimal('1e-30') or abs(c - b) < Decimal('1e-30'):
                a = b = c
                break
            if fc * fb > 0:
                b, fb = c, fc
                if side < 0:
                    fa /= 2
                side = -1
            else:
                a, fa = c, fc
                if side > 0:
                    fb /= 2
                side = 1
        else:
            raise Abort('root not found')
        return Root(((a if fa == 0 else b if fb == 0 else (a + b) / 2),))

    def nth(self, t, j, env):
        """one element of a sequence, without the others where possible"""
        while t.op == 'arr':
            t = t.args[0]
        if t.op in ('list', 'tuple'):
            return self.ev(t.args[j], env)
        if t.op == 'comp':
            vs, bodies, _ = binder_parts(t)
            return self.ev(bodies[0], {**env, vs[0].args[0]: Fraction(j)})
        v = self.ev(t, env)
        if not isinstance(v, tuple):
            raise Abort('element')
        return v[j]

    def near(self, f, t, env):
        """a linear interpolation of which only the neighbouring values are worked out"""
        v = self.vals((f.args[1],) + f.args[3:] + t.args[1:], env)
        if isinstance(v, Raise):
            raise Abort('root')
        xs, x = v[0], v[-1]
        if not isinstance(xs, tuple) or not is_num(x) or isinstance(x, INEXACT):
            raise Abort('interpolation')
        j = bisect.bisect_right(xs, x) - 1
        if not 0 <= j < len(xs):
            raise Abort('interpolation outside the points')
        k = [j] if j == len(xs) - 1 else [j, j + 1]
        return self.interp([tuple(xs[i] for i in k), tuple(self.nth(f.args[2], i, env) for i in k)] + v[1:])

    def interp(self, v):
        xs, ys, kind, x = v[0], v[1], v[2], v[-1]
        if len(v) != 4 or kind not in ('linear', 'previous', 'next') or not isinstance(xs, tuple) or not isinstance(ys, tuple) or len(xs) != len(ys) or not xs:
            raise Abort('interpolation')
        if not is_num(x) or any(not is_num(q) or isinstance(q, INEXACT) for q in xs) or any(p >= q for p, q in zip(xs, xs[1:])):
            raise Abort('interpolation')
        if isinstance(x, INEXACT):
            raise Abort('interpolation')
        if not xs[0] <= x <= xs[-1]:
            raise Abort('interpolation outside the points')
        j = max(k for k in range(len(xs)) if xs[k] <= x)
        if xs[j] == x or kind == 'previous':
            return ys[j]
        if kind == 'next':
            return ys[j + 1]
        w = Fraction(x - xs[j]) / (xs[j + 1] - xs[j])
        return self.add(self.mul(ys[j], 1 - w), self.mul(ys[j + 1], w))

    def holidays(self, how):
        """the days of a calendar are free, unless something looks into its holidays"""
        self.looked.add(how)
        if len(self.looked) > 1:
            raise Abort('holidays')

    def off(self, d, cal):
        if not isinstance(cal, D):
            raise Abort('calendar')
        x = math.floor(d)
        if datetime.date.fromordinal(x).weekday() > 4:
            return True
        self.holidays('day')
        return bool(cal.items) and self.rng(f'%holiday {cal} {x}').random() < .2

    def fn_is_business_day(self, d, cal):
        return not self.off(d, cal)

    def roll(self, d, cal, k):
        while self.off(d, cal):
            d += k
        return d

    def fn_following_date_adjustment(self, d, cal):
        return self.roll(d, cal, 1)

    def fn_previous_date_adjustment(self, d, cal):
        return self.roll(d, cal, -1)

    def fn_modified_following_date_adjustment(self, d, cal):
        x = self.roll(d, cal, 1)
        a, b = [datetime.date.fromordinal(math.floor(q)) for q in (x, d)]
        return x if a.month == b.month else self.roll(d, cal, -1)

    def fn_add_single_business_day(self, d, cal):
        return self.roll(d + 1, cal, 1)

    def fn_subtract_single_business_day(self, d, cal):
        return self.roll(d - 1, cal, -1)

    def fn_add_business_days(self, d, n, cal):
        for _ in range(int(n)):
            d = self.roll(d + 1, cal, 1)
        return d

    def fn_calculate_settlement_date(self, d, cal, conv):
        if isinstance(cal, Enum):
            cal, conv = conv, cal
        n = {'T_PLUS_ZERO_BUSINESS': 0, 'T_PLUS_ONE_BUSINESS': 1, 'T_PLUS_TWO_BUSINESS': 2, 'T_PLUS_THREE_BUSINESS': 3}.get(conv.key[-1])
        if n is None:
            raise Abort('convention')
        d = self.roll(d, cal, 1)
        return self.fn_add_business_days(d, n, cal)

    def fn_compute_accrual_length(self, a, b, conv):
        c = conv.key[-1] if isinstance(conv, Enum) else None
        if not is_num(a) or not is_num(b) or isinstance(a, INEXACT) or isinstance(b, INEXACT):
            raise Abort('accrual')
        if b < a:
            raise Abort('accrual backwards')
        y = {'ACTUAL_OVER_360': 360, 'ACTUAL_OVER_365': 365, 'ACTUAL_OVER_365_POINT_25': Fraction(1461, 4)}.get(c)
        if y is not None:
            return (b - a) / y
        p, q = math.floor(a), math.floor(b)
        if c not in ('THIRTY_OVER_THREESIXTY', 'ACTUAL_OVER_ACTUAL'):
            raise Abort('convention')
        u, v = (p + 1 - a if p != a else 0), (b - q)
        lo, hi = p + (p != a), q
        if lo > hi:
            raise Abort('accrual within a day')
        inner = self.whole(lo, hi, c)
        if not u and not v:
            return inner
        outer = self.whole(p, q + (v != 0), c)
        return inner + (outer - inner) * (u + v) / ((u != 0) + (v != 0))

    def whole(self, p, q, c):
        p, q = datetime.date.fromordinal(p), datetime.date.fromordinal(q)
        if c == 'THIRTY_OVER_THREESIXTY':
            d1 = min(p.day, 30)
            d2 = min(q.day, 30) if d1 == 30 else q.day
            return Fraction(360 * (q.year - p.year) + 30 * (q.month - p.month) + d2 - d1, 360)
        tot = Fraction(0)
        for y in range(p.year, q.year + 1):
            s, e = max(p, datetime.date(y, 1, 1)), min(q, datetime.date(y + 1, 1, 1))
            tot += Fraction((e - s).days, 365 + calendar.isleap(y))
        return tot

    def fn_generate_business_days(self, a, b, cal):
        if b - a > LIMIT:
            raise Abort('long schedule')
        out = []
        d = self.roll(a, cal, 1)
        while d <= b:
            out.append(d)
            d = self.roll(d + 1, cal, 1)
        return tuple(out)

    def fn_generate_dates_by_increments(self, a, b, r, n=None):
        out, k = [], 0
        step = r if isinstance(r, RD) else RD(Fraction(0), r)
        up = step.m >= 0 and step.d >= 0
        if step.m == step.d == 0 or not up and (step.m > 0 or step.d > 0):
            raise Abort('increment')
        while len(out) < LIMIT and (n is None or len(out) < n):
            x = self.dateadd((datetime.date.fromordinal(math.floor(a)), a - math.floor(a)), RD(step.m * k, step.d * k))
            if (x > b) if up else (x < b):
                break
            out.append(x)
            k += 1
        if len(out) >= LIMIT:
            raise Abort('long schedule')
        return tuple(out)


def same(a, b):
    """False only for values which certainly differ"""
    if isinstance(a, Raise) and isinstance(b, Raise):
        return True
    if isinstance(a, Raise) or isinstance(b, Raise):
        return False
    if is_num(a) and is_num(b):
        if isinstance(a, INEXACT) or isinstance(b, INEXACT):
            a, b = dec(a), dec(b)
            return abs(a - b) <= Decimal("1e-9") * max(1, abs(a), abs(b))
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, D) and isinstance(b, D):
        x, y = dict(a.items), dict(b.items)
        return x.keys() == y.keys() and all(same(x[k], y[k]) for k in x)
    if isinstance(a, Rec) and isinstance(b, Rec):
        return a.cls == b.cls and len(a.vals) == len(b.vals) and all(same(x, y) for x, y in zip(a.vals, b.vals))
    if isinstance(a, (Rec, Obj)) != isinstance(b, (Rec, Obj)) and (a is None or b is None):
        return False
    if isinstance(a, (Rec, Obj, Free)) or isinstance(b, (Rec, Obj, Free)):
        return a == b or type(a) is not type(b)
    return a == b


def show_value(v, depth=0):
    if is_num(v):
        if 700000 < v < 760000:
            d = datetime.datetime.fromordinal(math.floor(v)) + datetime.timedelta(days=float(v - math.floor(v)))
            return d.strftime('%Y-%m-%d' if v == math.floor(v) else '%Y-%m-%d %H:%M')
        return '%.10g' % float(v)
    if isinstance(v, tuple):
        return '(' + ', '.join(show_value(x, depth + 1) for x in v[:8]) + (', …' if len(v) > 8 else '') + ')'
    if isinstance(v, D):
        return '{' + ', '.join(f'{show_value(k)}: {show_value(x)}' for k, x in v.items) + '}'
    if isinstance(v, Rec):
        return v.cls.split(':')[-1] + show_value(v.vals)
    return repr(v)


def before(conds):
    """pairs (x, y) of date inputs with x <= y among the preconditions, and those with x = y"""
    out, same = [], []
    for c in conds:
        if c.op == 'zero' and c.args[0].op == 'poly' and len(c.args[0].args) == 4:
            k1, c1, k2, c2 = c.args[0].args
            if c1 == -c2 and len(k1.args) == len(k2.args) == 2 and k1.args[0].op == k2.args[0].op == 'sym' and k1.args[1] == k2.args[1] == 1:
                same.append((k1.args[0], k2.args[0]))
        n = c.op == 'not'
        d = c.args[0] if n else c
        if d.op != 'pos' or d.args[0].op != 'poly':
            continue
        its = [(k.args[0], v) for k, v in zip(d.args[0].args[0::2], d.args[0].args[1::2]) if len(k.args) == 2]
        its = [(a, v) for a, v in its if a.op == 'sym' and a.args[1] in ('date', 'datetime')]
        if len(its) == 2 and its[0][1] == -its[1][1]:
            (x, v), (y, _) = its
            lo, hi = (y, x) if v > 0 else (x, y)
            out.append((hi, lo) if n else (lo, hi))
    return out, same


def ordered(p, pairs):
    """draws the date inputs in an order the preconditions allow"""
    pairs, same = pairs
    order(p, pairs)
    for x, y in same:
        p.drawn[tuple(x.args)] = p.draw(*y.args)


def order(p, pairs):
    nodes = list(dict.fromkeys(x for q in pairs for x in q))
    r = p.rng('%order')
    vals = sorted(p.draw(*x.args) for x in nodes)
    left = list(nodes)
    for v in vals:
        free = [x for x in left if not any(h is x and l in left for l, h in pairs)]
        if not free:
            return
        x = r.choice(free)
        left.remove(x)
        p.drawn[tuple(x.args)] = v


STEP = {'date': (1, 1, 2, 7, 30, 90, 400), 'datetime': (Fraction(1, 24), Fraction(1, 4), 1, 3, 40, 200), 'int': (1, 1, 2, 3), 'num': (Fraction(1, 32), Fraction(1, 4), 1, 3),
        'pos': (Fraction(1, 32), Fraction(1, 4), 1, 3), 'nonneg': (Fraction(1, 32), Fraction(1, 4), 1, 3)}


def repair(p, conds):
    """moves inputs until the preconditions hold: a condition on the sign of a polynomial is met by moving one input it contains"""
    r = p.rng('%repair')
    for n in range(9):
        bad = next((c for c in conds if p.truth(c, {}) is not True), None)
        if bad is None:
            return True
        no = bad.op == 'not'
        c = bad.args[0] if no else bad
        if n == 8 or c.op not in ('pos', 'zero') or c.args[0].op != 'poly':
            return False
        t = c.args[0]
        its = [(k.args[0], f) for k, f in zip(t.args[0::2], t.args[1::2]) if len(k.args) == 2 and k.args[1] == 1]
        its = [(a, f) for a, f in its if a.op == 'sym' and a.args[1] in STEP]
        v = p.ev(t, {})
        if not its or not is_num(v) or isinstance(v, INEXACT):
            return False
        a, f = r.choice(its)
        ty = a.args[1]
        d = r.choice(STEP[ty])
        move = (d - v if c.op == 'pos' and not no else -v - r.choice((0, d)) if c.op == 'pos' else d if no else -v) / Fraction(f)
        if ty in ('date', 'int') and move.denominator != 1:
            if c.op == 'zero':
                return False
            move = Fraction(math.ceil(move) if move > 0 else math.floor(move))
        x = p.draw(*a.args) + move
        if ty == 'pos' and x <= 0 or ty == 'nonneg' and x < 0 or ty in ('date', 'datetime') and not 690000 < x < 780000:
            return False
        p.drawn[tuple(a.args)] = x
        p.memo.clear()
        p.mins.clear()
    return False


def at_point(p, va, vb, facts, pairs, k, prec):
    with localcontext() as c:
        c.prec = prec
        if k % 8:
            ordered(p, pairs)
        if not repair(p, facts.conds):
            return None
        b = p.ev(vb, {})
        return p.ev(va, {}), b


def refute(va, vb, facts, interp, seconds=20, points=5000, stats=None):
    """a description of a point where the graphs differ, or None"""
    end = time.monotonic() + seconds
    agreed = 0
    why = {}
    pairs = before(facts.conds)
    for k in range(points):
        if time.monotonic() > end or agreed >= 400:
            break
        try:
            p = Point(interp, k, end, k)
            x = at_point(p, va, vb, facts, pairs, k, 50)
            if x is None:
                why['precondition'] = why.get('precondition', 0) + 1
                continue
            a, b = x
            ok = same(a, b)
            if not ok:
                # once more, in twice the precision
                p = Point(interp, k, end, k)
                x = at_point(p, va, vb, facts, pairs, k, 110)
                if x is None or same(*x) or not same(x[0], a) or not same(x[1], b):
                    raise Abort('precision')
        except Abort as e:
            why[str(e)] = why.get(str(e), 0) + 1
            continue
        except (RecursionError, ArithmeticError, TypeError, AttributeError, ValueError, IndexError, KeyError) as e:
            why[repr(e)] = why.get(repr(e), 0) + 1
            continue
        if ok:
            agreed += 1
            continue
        ins = ', '.join(f'{n} = {show_value(v)}' for (n, ty), v in sorted(p.drawn.items(), key=lambda x: x[0][0]) if not isinstance(v, (Obj, Free)))
        return f'current source yields {show_value(a)[:300]} where the property requires {show_value(b)[:300]}, for {ins[:600]}'
    if stats is not None:
        stats['agreed'] = agreed
        stats['why'] = why
    return None
