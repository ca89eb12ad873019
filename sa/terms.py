"""Value-graph terms: hash-consed, normalised on construction.

A term is a node of a gated value graph (gated SSA / value numbering): constants, opaque inputs, attribute reads,
calls, polynomial/rational arithmetic in normal form, comparisons in sign-of-difference form, gates (`ite`),
indexed comprehensions (`comp`), sums, products, general folds.  Two program points that compute the same
expression get the same node.  Nothing here executes repository code.
"""
from fractions import Fraction
import itertools

_pool = {}
_uid = itertools.count(1)


class T:
    __slots__ = ('op', 'args', 'uid', 'height', '_fv', '_hasunk', '_conds')

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op, tuple((a.uid if isinstance(a, T) else ('#', type(a).__name__, a)) for a in args))
    t = _pool.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.uid = next(_uid)
        h = 0
        for a in args:
            if isinstance(a, T) and a.height > h:
                h = a.height
        if op == 'bv' and args[0] > h:
            h = args[0]
        t.height = h
        t._hasunk = None
        t._conds = None
        _pool[key] = t
    return t


# ---------------------------------------------------------------- constants
NONE = mk('const', None)
TRUE = mk('const', True)
FALSE = mk('const', False)


def num(x):
    if isinstance(x, float):
        if x != x:
            return mk('const', 'nan#')
        if x in (float('inf'), float('-inf')):
            return mk('const', 'inf#' if x > 0 else '-inf#')
        x = Fraction(repr(x))
    return mk('num', Fraction(x))


ZERO = num(0)
ONE = num(1)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if v is Ellipsis:
        return mk('const', '...')
    return mk('const', v)


def sym(name, typ=None):
    return mk('sym', name, typ)


def unk(reason):
    return mk('unk', reason)


def boolc(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- polynomials
# poly: mk('poly', (mono, coef), ...), mono = tuple of (atom, exp) with Fraction exps, sorted by atom uid

def _poly_items(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(zip([_mono_unkey(k) for k in t.args[0::2]], [c for c in t.args[1::2]]))
    return {((t, Fraction(1)),): Fraction(1)}


_mono_pool = {}


def _mono_key(m):
    k = mk('mono', *[x for a, e in m for x in (a, e)])
    return k


def _mono_unkey(k):
    a = k.args
    return tuple((a[i], a[i + 1]) for i in range(0, len(a), 2))


def _from_items(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(((_mono_key(m), c) for m, c in d.items()), key=lambda kc: kc[0].uid)
    flat = []
    for k, c in items:
        flat += [k, c]
    return mk('poly', *flat)


def is_const_seq(t):
    return t.op in ('list', 'tuple')


def _lift(t):
    return t


def add(*ts):
    d = {}
    for t in ts:
        if t.op == 'unk':
            return t
        for m, c in _poly_items(t).items():
            d[m] = d.get(m, 0) + c
    return _from_items(d)


def neg(t):
    return scale(t, -1)


def scale(t, c):
    if t.op == 'unk':
        return t
    return _from_items({m: v * c for m, v in _poly_items(t).items()})


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: ae[0].uid))


def _mono_needs_expand(m):
    for a, e in m:
        if a.op == 'poly' and e.denominator == 1 and 0 < e <= 6:
            return True
    return False


def mul(*ts):
    acc = {(): Fraction(1)}
    for t in ts:
        if t.op == 'unk':
            return t
        items = _poly_items(t)
        new = {}
        for m1, c1 in acc.items():
            for m2, c2 in items.items():
                m = _mono_mul(m1, m2)
                new[m] = new.get(m, 0) + c1 * c2
        acc = {m: c for m, c in new.items() if c != 0}
        if len(acc) > 4000:
            return unk('polynomial too large')
    # expand positive integer powers of polynomial atoms that arose
    if any(_mono_needs_expand(m) for m in acc):
        total = ZERO
        for m, c in acc.items():
            if _mono_needs_expand(m):
                rest, polys = [], []
                for a, e in m:
                    if a.op == 'poly' and e.denominator == 1 and 0 < e <= 6:
                        polys += [a] * int(e)
                    else:
                        rest.append((a, e))
                total = add(total, mul(_from_items({tuple(rest): c}), *polys))
            else:
                total = add(total, _from_items({m: c}))
        return total
    return _from_items(acc)


def power(base, e):
    """base ** e"""
    if base.op == 'unk':
        return base
    if e.op == 'unk':
        return e
    if e.op == 'num':
        return _powc(base, e.args[0])
    if base.op == 'num' and base.args[0] == 1:
        return ONE
    # symbolic exponent: product over monomials of powatom(base, mono)^coef
    res = ONE
    for m, c in _poly_items(e).items():
        if m == ():
            res = mul(res, _powc(base, c))
        else:
            b, k = base, Fraction(1)
            # (1/x)**n -> (x**n)**-1
            its = _poly_items(base)
            if len(its) == 1:
                (bm, bc), = its.items()
                if len(bm) == 1 and bc == 1:
                    b, k = bm[0][0], bm[0][1]
            atom = mk('pow', b, _from_items({m: Fraction(1)}))
            res = mul(res, _from_items({((atom, c * k),): Fraction(1)}))
    return res


def _powc(base, c):
    if c == 0:
        return ONE
    if c == 1:
        return base
    if base.op == 'num':
        v = base.args[0]
        if c.denominator == 1:
            if v == 0 and c < 0:
                return unk('division by zero')
            return num(v ** int(c))
        return _from_items({((base, c),): Fraction(1)}) if v not in (0, 1) else base
    items = _poly_items(base)
    if len(items) == 1:
        (m, k), = items.items()
        if c.denominator == 1:
            if c.denominator == 1 and k == 0:
                return ZERO
            nm = tuple((a, e * c) for a, e in m)
            r = _from_items({nm: k ** int(c)})
            if _mono_needs_expand(nm):
                return mul(r)
            return r
        # fractional power of a monomial: keep exact only for a single atom with coefficient one
        if k == 1 and len(m) == 1:
            return _from_items({((m[0][0], m[0][1] * c),): Fraction(1)}) if m[0][1] == 1 or True else None
        return _from_items({((base, c),): Fraction(1)})
    if c.denominator == 1 and 0 < c <= 6:
        return mul(*([base] * int(c)))
    # normalise the polynomial atom: content out so that (2a+2b)^-1 == (a+b)^-1 / 2
    if c.denominator == 1:
        lead = base.args[1]
        b = scale(base, 1 / lead)
        return _from_items({((b, c),): lead ** int(c)})
    return _from_items({((base, c),): Fraction(1)})


def div(a, b):
    return mul(a, _powc(b, Fraction(-1))) if b.op != 'unk' else b


def exp_(x):
    if x.op == 'unk':
        return x
    res = ONE
    for m, c in _poly_items(x).items():
        atom = mk('exp', _from_items({m: Fraction(1)}))
        res = mul(res, _from_items({((atom, c),): Fraction(1)}))
    return res


def log_(x):
    its = _poly_items(x)
    if x.op == 'num' and x.args[0] == 1:
        return ZERO
    if len(its) == 1:
        (m, c), = its.items()
        if c == 1 and all(a.op == 'exp' for a, e in m):
            return add(*[scale(a.args[0], e) for a, e in m])
    return mk('log', x)


# ---------------------------------------------------------------- rational zero test

def _denoms(items):
    out = {}
    for m in items:
        for a, e in m:
            if e < 0:
                k = -e
                if out.get(a, 0) < k:
                    out[a] = k
    return out


def is_zero(t):
    """exact zero test of a rational expression (denominators assumed non-zero)"""
    for _ in range(12):
        if t.op == 'num':
            return t.args[0] == 0
        items = _poly_items(t)
        if not items:
            return True
        den = {a: e for a, e in _denoms(items).items() if a.op == 'poly' and e.denominator == 1}
        if not den:
            return False
        a, e = min(den.items(), key=lambda ae: ae[0].uid)
        # multiply every monomial by a**e, expanding where the exponent becomes positive
        total = ZERO
        for m, c in items.items():
            rest = tuple((x, y) for x, y in m if x is not a)
            ee = e + sum((y for x, y in m if x is a), Fraction(0))
            part = _from_items({rest: c})
            if ee.denominator != 1:
                part = mul(part, _from_items({((a, ee),): Fraction(1)}))
            elif ee:
                part = mul(part, *([a] * int(ee)))
            total = add(total, part)
        t = total
        if t.op == 'unk':
            return False
    return False


# ---------------------------------------------------------------- booleans

def pos(d):
    """d > 0"""
    if d.op == 'num':
        return boolc(d.args[0] > 0)
    if d.op == 'unk':
        return d
    if d.op == 'ite':
        return ite(d.args[0], pos(d.args[1]), pos(d.args[2]))
    its = _poly_items(d)
    lead = abs(_from_items(its).args[1]) if d.op == 'poly' else 1
    # scale by a positive factor
    if d.op == 'poly':
        d = scale(d, 1 / abs(_lead_coef(d)))
    return mk('pos', d)


def _lead_coef(d):
    # coefficient of the non-constant monomial with the least uid
    for k, c in zip(d.args[0::2], d.args[1::2]):
        if k.args:
            return c
    return d.args[1]


def zero(d):
    if d.op == 'num':
        return boolc(d.args[0] == 0)
    if d.op == 'unk':
        return d
    if d.op == 'ite':
        return ite(d.args[0], zero(d.args[1]), zero(d.args[2]))
    if d.op == 'poly':
        d = scale(d, 1 / _lead_coef(d))
    return mk('zero', d)


def _str_like(t):
    return t.op in ('const', 'enum', 'tuple', 'list', 'rec', 'ref', 'cls', 'fn', 'pymod', 'pyfn')


def lt(a, b):
    if a.op == 'ite':
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    return pos(sub(b, a))


def eq(a, b):
    if a is b:
        return a if a.op == 'unk' else TRUE
    if a.op == 'unk':
        return a
    if b.op == 'unk':
        return b
    if a.op == 'ite':
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == 'ref' and b.op == 'ref':
        return FALSE        # two objects; those which say when they are equal have been asked before
    concrete = ('const', 'enum', 'num', 'cls', 'pyfn', 'fn')
    if a.op in concrete and b.op in concrete:
        return boolc(a is b)
    if a.op in ('tuple', 'list') and b.op in ('tuple', 'list'):
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op in ('tuple', 'list', 'rec', 'ref') and b.op in concrete or b.op in ('tuple', 'list', 'rec', 'ref') and a.op in concrete:
        return FALSE
    if a is NONE or b is NONE:
        o = b if a is NONE else a
        if o.op in ('num', 'poly', 'comp', 'sum', 'pos', 'zero', 'not', 'and', 'fn', 'cls', 'pyfn', 'exp', 'pow', 'dateadd',
                    'sorted', 'rec', 'bmeth', 'root', 'idx') or (o.op == 'at' and False):
            return FALSE
        ty = typeof(o)
        if ty and not ty.startswith('Optional') and ty != 'any':
            return FALSE
    if a.op == 'fstr' and b.op == 'fstr' and len(a.args) == len(b.args):
        # the same text around two different numbers
        d = [(x, y) for x, y in zip(a.args, b.args) if x is not y]
        if len(d) == 1 and all(x.op == 'fstr' and x.args[0].op == 'num' for x in d[0]):
            return FALSE
    if a.op in ('const', 'enum') or b.op in ('const', 'enum') or a is NONE or b is NONE:
        x, y = (a, b) if a.uid < b.uid else (b, a)
        return mk('eq', x, y)
    if _str_like(a) or _str_like(b):
        x, y = (a, b) if a.uid < b.uid else (b, a)
        return mk('eq', x, y)
    return zero(sub(a, b))


def typeof(t):
    if t.op == 'sym':
        return t.args[1]
    if t.op in ('num', 'poly', 'sumc', 'prodc', 'iters', 'len', 'year', 'month', 'day', 'weekday', 'mod', 'mkdate', 'dateof', 'log', 'lastday'):
        return 'num'
    if t.op == 'iterate':
        vs, b, p = binder_parts(t)
        i = p[-1].args[0] if p[-1].op == 'num' else None
        if i is None or typeof(p[int(i)]) not in ('num', 'int', 'pos', 'nonneg', 'float'):
            return None

        def leaves(x):
            return leaves(x.args[1]) + leaves(x.args[2]) if x.op == 'ite' else [x]
        return 'num' if all(x.op in ('num', 'poly', 'bv') for x in leaves(b[int(i)])) else None
    return None


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'unk':
        return c
    if c.op == 'not':
        return c.args[0]
    if c.op == 'ite':
        return ite(c.args[0], not_(c.args[1]), not_(c.args[2]))
    return mk('not', c)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'unk':
        return c
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'ite':
        # (c1 ? x : y) ? a : b  ->  c1 ? (x?a:b) : (y?a:b)
        return ite(c.args[0], ite(c.args[1], a, b), ite(c.args[2], a, b))
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', c, a, b)


def and_(*cs):
    r = TRUE
    for c in reversed(cs):
        r = ite(c, r, FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in reversed(cs):
        r = ite(c, TRUE, r)
    return r


# ---------------------------------------------------------------- binders
def bv(n):
    return mk('bv', n)


_fresh = itertools.count(1)


def fresh(tag='v'):
    return mk('sym', f'%{tag}{next(_fresh)}', None)


def bind(op, vars_, bodies, *pre):
    """canonical binder node: op(pre..., nvars, bodies...) with vars replaced by height-indexed bound variables"""
    h = 0
    for b in bodies:
        h = max(h, b.height)
    sub_ = {}
    for k, v in enumerate(vars_):
        sub_[v] = bv(h + 1 + k)
    nb = [subst(b, sub_) for b in bodies]
    return mk(op, len(vars_), h + 1, len(bodies), *nb, *pre)


BINDERS = ('comp', 'flat', 'filt', 'iterate', 'iters', 'exists', 'lam', 'dictcomp', 'sumc', 'prodc', 'extk', 'sortedk')


def binder_parts(t):
    n, h, k = t.args[0], t.args[1], t.args[2]
    return [bv(h + i) for i in range(n)], list(t.args[3:3 + k]), list(t.args[3 + k:])


def open_binder(t, vals=None):
    vs, bodies, pre = binder_parts(t)
    if vals is None:
        tag = 'i' if t.op in ('comp', 'flat', 'filt', 'sumc', 'prodc', 'exists', 'iters', 'dictcomp') else 'o'
        vals = [fresh(tag) for _ in vs]
    m = dict(zip(vs, vals))
    return vals, [subst(b, m) for b in bodies], pre


def subst(t, m, _memo=None):
    if not m:
        return t
    if _memo is None:
        _memo = {}
    r = _memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not t.args or t.op in ('num', 'const', 'sym', 'bv', 'enum', 'unk'):
        r = t
    elif t.op in BINDERS:
        # open first: the numbering of inner binders may change under substitution
        if not touches(t, m):
            r = t
        else:
            vs, bodies, pre = binder_parts(t)
            fs = [fresh('r') for _ in vs]
            m2 = dict(m)
            m2.update(zip(vs, fs))
            memo2 = {}
            bodies = [subst(b, m2, memo2) for b in bodies]
            pre = [subst(p, m, _memo) if isinstance(p, T) else p for p in pre]
            r = close(t.op, fs, bodies, pre)
    else:
        changed = False
        na = []
        for a in t.args:
            if isinstance(a, T):
                b = subst(a, m, _memo)
                changed = changed or (b is not a)
                na.append(b)
            else:
                na.append(a)
        r = rebuild(t, na) if changed else t
    _memo[t] = r
    return r


_SYMS = {}
_NOSYMS = frozenset()


def syms(t):
    """symbols and bound variables occurring in t"""
    r = _SYMS.get(t)
    if r is None:
        if t.op in ('sym', 'bv'):
            r = frozenset((t,))
        else:
            r = _NOSYMS
            for a in t.args:
                if isinstance(a, T):
                    x = syms(a)
                    if x and not x <= r:
                        r = r | x if r else x
        _SYMS[t] = r
    return r


def touches(t, m):
    s = syms(t)
    rest = [k for k in m if k.op not in ('sym', 'bv')]
    if any(k in s for k in m if k.op in ('sym', 'bv')):
        return True
    return bool(rest) and contains(t, lambda z: z in m)


def close(op, fs, bodies, pre):
    g = REBUILD.get('binder:' + op)
    if g:
        return g(list(fs), list(bodies), list(pre))
    return bind(op, fs, bodies, *pre)


REBUILD = {}


def rebuild(t, na):
    op = t.op
    if op == 'mono':
        return mk('mono', *na)   # only reached through poly below
    if op == 'poly':
        total = ZERO
        for k, c in zip(na[0::2], na[1::2]):
            part = num(c)
            for i in range(0, len(k.args), 2):
                part = mul(part, _atom_pow(k.args[i], k.args[i + 1]))
            total = add(total, part)
        return total
    if op == 'ite':
        return ite(*na)
    if op == 'pos':
        return pos(na[0])
    if op == 'zero':
        return zero(na[0])
    if op == 'eq':
        return eq(*na)
    if op == 'not':
        return not_(na[0])
    if op == 'exp':
        return exp_(na[0])
    if op == 'pow':
        return power(na[0], na[1])
    if op == 'log':
        return log_(na[0])
    f = REBUILD.get(op)
    if f:
        return f(*na)
    if op in BINDERS:
        # renormalise the bound variable numbering (height may have changed)
        n, h, k = na[0], na[1], na[2]
        bodies = list(na[3:3 + k])
        vs = [bv(h + i) for i in range(n)]
        fs = [fresh('r') for _ in vs]
        m = dict(zip(vs, fs))
        bodies = [subst(b, m) for b in bodies]
        g = REBUILD.get('binder:' + op)
        if g:
            return g(fs, bodies, list(na[3 + k:]))
        return bind(op, fs, bodies, *na[3 + k:])
    return mk(op, *na)


def _atom_pow(a, e):
    return _powc(a, e)


# ---------------------------------------------------------------- queries
def has_unk(t, _seen=None):
    if t._hasunk is not None:
        return t._hasunk
    r = t.op == 'unk'
    if not r:
        for a in t.args:
            if isinstance(a, T) and has_unk(a):
                r = True
                break
    t._hasunk = r
    return r


def first_unk(t):
    if t.op == 'unk':
        return t.args[0]
    for a in t.args:
        if isinstance(a, T) and has_unk(a):
            return first_unk(a)
    return None


def contains(t, pred, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return False
    seen.add(t)
    if pred(t):
        return True
    return any(isinstance(a, T) and contains(a, pred, seen) for a in t.args)


def collect(t, pred, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if t in seen:
        return out
    seen.add(t)
    if pred(t):
        out.append(t)
    for a in t.args:
        if isinstance(a, T):
            collect(a, pred, out, seen)
    return out


# ---------------------------------------------------------------- printing
def show(t, depth=7):
    if depth <= 0:
        return '…'
    op, a = t.op, t.args
    s = lambda x: show(x, depth - 1) if isinstance(x, T) else str(x)
    if op == 'num':
        v = a[0]
        if v.denominator == 1:
            return str(v.numerator)
        f = float(v)
        return repr(f) if Fraction(repr(f)) == v else str(v)
    if op == 'const':
        return repr(a[0])
    if op == 'enum':
        return f'{a[0].split(".")[-1]}.{a[1]}'
    if op == 'sym':
        return a[0]
    if op == 'bv':
        return f'i{a[0]}'
    if op == 'unk':
        return f'<undecided: {a[0]}>'
    if op == 'attr':
        return f'{s(a[0])}.{a[1]}'
    if op == 'at':
        return f'{s(a[0])}[{s(a[1])}]'
    if op == 'call':
        return f'{s(a[0])}({", ".join(s(x) for x in a[1:])})'
    if op == 'poly':
        parts = []
        for k, c in zip(a[0::2], a[1::2]):
            m = '*'.join((s(k.args[i]) if k.args[i + 1] == 1 else f'{s(k.args[i])}^{k.args[i+1]}')
                         if k.args[i].op != 'poly' else f'({s(k.args[i])})^{k.args[i+1]}' for i in range(0, len(k.args), 2))
            cs = show(num(c))
            parts.append(cs if not m else (m if c == 1 else ('-' + m if c == -1 else f'{cs}*{m}')))
        return '(' + ' + '.join(parts) + ')'
    if op == 'pos':
        return f'{s(a[0])} > 0'
    if op == 'zero':
        return f'{s(a[0])} == 0'
    if op == 'eq':
        return f'{s(a[0])} == {s(a[1])}'
    if op == 'not':
        return f'not({s(a[0])})'
    if op == 'ite':
        return f'({s(a[1])} if {s(a[0])} else {s(a[2])})'
    if op == 'raise':
        return f'raise {a[0]}'
    if op in ('list', 'tuple'):
        return ('[' if op == 'list' else '(') + ', '.join(s(x) for x in a) + (']' if op == 'list' else ')')
    if op in BINDERS:
        vs, bodies, pre = binder_parts(t)
        return f'{op}<{",".join(s(v) for v in vs)}>({"; ".join(s(b) for b in bodies)}{" | " if pre else ""}{", ".join(s(p) for p in pre)})'
    return f'{op}({", ".join(s(x) for x in a)})'
