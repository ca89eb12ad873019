"""Arrays of known rank whose axes may have symbolic length: nested sequence terms under 'arr'."""
from terms import *
from seqs import *
import seqs


def inner(t):
    return t.args[0] if t.op == 'arr' else t


def strip(t):
    """without array marks below gates"""
    if t.op == 'ite':
        return ite(t.args[0], strip(t.args[1]), strip(t.args[2]))
    return inner(t)


def isseq(t):
    return t.op in ('list', 'comp', 'concat', 'tuple', 'arr') or t.op == 'sym' and len(t.args) > 1 and isinstance(t.args[1], str) and t.args[1].startswith('seq') \
        or t.op == 'ite' and isseq(t.args[1]) and isseq(t.args[2])


def shape(s):
    """lengths of the axes"""
    out = []
    s = inner(s)
    if s.op == 'ite':
        a, b = shape(s.args[1]), shape(s.args[2])
        if len(a) == len(b):
            return [ite(s.args[0], x, y) for x, y in zip(a, b)]
    while isseq(s):
        s = norm_seq(s)
        out.append(slen(s))
        if s.op == 'list' and not s.args:
            break
        s = inner(at(s, ZERO))
        if s.op == 'raise':
            break
    return out


def build(dims, f):
    if not dims:
        return f()
    g = next((d for d in dims if d.op == 'ite'), None)
    if g is not None:
        c = g.args[0]
        return ite(c, build([under(d, c, 1) for d in dims], f), build([under(d, c, 2) for d in dims], f))
    return comp(dims[0], lambda i: build(dims[1:], lambda *r: f(i, *r)))


def under(d, c, j):
    """the gate d when its condition c is known (branch j)"""
    while d.op == 'ite' and d.args[0] is c:
        d = d.args[j]
    return d


def gate(*xs):
    """the condition of the first gated operand"""
    for x in xs:
        if inner(x).op == 'ite':
            return inner(x).args[0]
    return None


def side(x, c, j):
    y = inner(x)
    if y.op == 'ite' and y.args[0] is c:
        y = inner(under(y, c, j))
        return mk('arr', y) if isseq(y) else y
    return x


def spread(f, *xs):
    """f over operands, gates taken outside"""
    c = gate(*xs)
    if c is None:
        return f(*xs)
    a, b = spread(f, *[side(x, c, 1) for x in xs]), spread(f, *[side(x, c, 2) for x in xs])
    if a is None or b is None:
        return None
    if a.op == 'unk':
        return a
    if b.op == 'unk':
        return b
    if a.op == 'arr' and b.op == 'arr':
        return mk('arr', ite(c, a.args[0], b.args[0]))
    return ite(c, a, b)


def element(s, ix):
    s = inner(s)
    for i in ix:
        s = at(s, i)
    return s


def rank(s):
    return len(shape(s))


def broadcast(das, dbs):
    """shape of the combination, or None"""
    n = max(len(das), len(dbs))
    da = [ONE] * (n - len(das)) + list(das)
    db = [ONE] * (n - len(dbs)) + list(dbs)
    out = []
    for x, y in zip(da, db):
        if x is y:
            out.append(x)
        elif x is ONE:
            out.append(y)
        elif y is ONE:
            out.append(x)
        else:
            return None
    return out


def pick(s, dims, ix):
    """element of an operand of the given shape at an index of the combination"""
    ix = ix[len(ix) - len(dims):]
    return element(s, [ZERO if d is ONE else i for d, i in zip(dims, ix)])


def combine(a, b, f):
    return spread(lambda x, y: _combine(x, y, f), a, b)


def _combine(a, b, f):
    da, db = shape(a) if isseq(inner(a)) else [], shape(b) if isseq(inner(b)) else []
    dims = broadcast(da, db)
    if dims is None:
        return unk('array shapes may not match')
    return mk('arr', build(dims, lambda *ix: f(pick(a, da, ix) if da else a, pick(b, db, ix) if db else b)))


def apply(a, f):
    return mk('arr', _apply(inner(a), f))


def _apply(s, f):
    return smap(s, lambda x: _apply(inner(x), f) if isseq(inner(x)) else f(x))


def product(a, b):
    return spread(_product, a, b)


def _product(a, b):
    da, db = shape(a), shape(b)
    if not da or not db or len(da) > 2 or len(db) > 2:
        return None
    n = da[-1]
    if db[0] is not n:
        return unk('matrix shapes may not match')

    def dot(f, g):
        i = fresh('q')
        c = as_int(n)
        if c is not None:
            return add(*[mul(f(num(q)), g(num(q))) for q in range(c)])
        return sum_(n, i, TRUE, mul(f(i), g(i)))
    if len(da) == 2 and len(db) == 2:
        return mk('arr', build([da[0], db[1]], lambda i, j: dot(lambda q: element(a, [i, q]), lambda q: element(b, [q, j]))))
    if len(da) == 2:
        return mk('arr', build([da[0]], lambda i: dot(lambda q: element(a, [i, q]), lambda q: element(b, [q]))))
    if len(db) == 2:
        return mk('arr', build([db[1]], lambda j: dot(lambda q: element(a, [q]), lambda q: element(b, [q, j]))))
    return dot(lambda q: element(a, [q]), lambda q: element(b, [q]))


def turned(a):
    return spread(_turned, a)


def _turned(a):
    d = shape(a)
    if len(d) < 2:
        return a
    return mk('arr', build(d[::-1], lambda *ix: element(a, ix[::-1])))


def along(s, axis, f):
    """apply f to the sequences along the last or first axis"""
    s = inner(s)
    d = shape(s)
    if axis < 0:
        axis += len(d)
    if axis == len(d) - 1:
        return _last(s, len(d), f)
    return None


def _last(s, n, f):
    if n == 1:
        return f(s)
    return smap(s, lambda x: _last(inner(x), n - 1, f))


def total(s, axis):
    return spread(lambda x: _total(x, axis), s)


def _total(s, axis):
    d = shape(s)
    if axis is None:
        ix = []

        def go(t, k):
            if k == 0:
                return t
            i = fresh('q')
            return sum_(d[len(d) - k], i, TRUE, go(at(inner(t), i), k - 1)) if as_int(d[len(d) - k]) is None else add(*[go(at(inner(t), num(q)), k - 1) for q in range(as_int(d[len(d) - k]))])
        return go(inner(s), len(d))
    if axis < 0:
        axis += len(d)
    rest = d[:axis] + d[axis + 1:]

    def f(*ix):
        c = as_int(d[axis])
        if c is not None:
            return add(*[element(s, ix[:axis] + (num(q),) + ix[axis:]) for q in range(c)])
        i = fresh('q')
        return sum_(d[axis], i, TRUE, element(s, ix[:axis] + (i,) + ix[axis:]))
    r = build(rest, f)
    return mk('arr', r) if rest else r


def index(s, ks, rows=None):
    """s[k1, k2, ...] with integers, slices and None"""
    s = inner(s)
    if not ks:
        return s
    k, rest = ks[0], ks[1:]
    if k is NONE:
        return mk('list', index(s, rest))
    if k.op == 'slicev':
        r = s if k.args == (NONE, NONE, NONE) else sslice(norm_seq(s), *k.args)
        return smap(r, lambda x: index(x, rest)) if rest else r
    if as_int(k) is None and not isseq(s):
        return mk('at', s, k)
    x = at(norm_seq(s), k)
    return x if x.op == 'raise' else index(x, rest)


def store(s, ks, val):
    """s with val written at s[ks]; None when not representable"""
    s = inner(s)
    if not ks:
        if isseq(s):
            d, dv = shape(s), shape(val) if isseq(inner(val)) else []
            if broadcast(d, dv) != d:
                return unk('array shapes may not match')
            return inner(val) if d == dv else build(d, lambda *ix: pick(val, dv, ix) if dv else val)
        d = shape(val) if isseq(inner(val)) else []
        if all(x is ONE for x in d):
            return element(val, [ZERO] * len(d)) if d else val
        return unk('sequence stored in an element')
    k, rest = ks[0], ks[1:]
    s = norm_seq(s)
    n = slen(s)
    sub_rank = rank(s) - 1 - sum(1 for x in rest if x.op != 'slicev')
    if k.op == 'slicev':
        lo, hi, step = k.args
        if step is not NONE and step is not ONE:
            return None
        lo = ZERO if lo is NONE else (add(n, lo) if as_int(lo) is not None and as_int(lo) < 0 else lo)
        hi = n if hi is NONE else (add(n, hi) if as_int(hi) is not None and as_int(hi) < 0 else hi)
        vr = rank(val) if isseq(inner(val)) else 0
        whole = vr > sub_rank       # the value has this axis
        if whole and vr > sub_rank + 1:
            return None
        size = sub(hi, lo)
        if whole:
            vn = slen(norm_seq(inner(val)))
            if vn is not size and vn is not ONE:
                return unk('array shapes may not match')

        def piece(i):
            v = val if not whole else at(norm_seq(inner(val)), ZERO if slen(norm_seq(inner(val))) is ONE and size is not ONE else i)
            r = store(at(s, add(lo, i)), rest, v)
            if r is None:
                raise ValueError
            return r
        try:
            mid = comp(size, piece)
        except ValueError:
            return None
        return concat(sslice(s, NONE, lo, NONE) if lo is not ZERO else EMPTY, mid, sslice(s, hi, NONE, NONE) if hi is not n else EMPTY)
    j = as_int(k)
    if j is not None and j < 0:
        k = add(n, k)
        j = as_int(k)
    if s.op == 'list' and j is not None:
        if not 0 <= j < len(s.args):
            return mk('raise', 'IndexError')
        r = store(s.args[j], rest, val)
        return None if r is None else mk('list', *s.args[:j], r, *s.args[j + 1:])
    if s.op == 'list':
        rs = [store(e, rest, val) for e in s.args]
        return None if any(r is None for r in rs) else mk('list', *[ite(eq(k, num(q)), r, e) for q, (r, e) in enumerate(zip(rs, s.args))])
    if s.op not in ('comp', 'sym', 'concat', 'slice') or rest and not isseq(at(s, ZERO)):
        return None
    if s.op == 'concat':
        if sub(k, sub(n, ONE)) is ZERO:
            r = store(at(s, k), rest, val)
            return None if r is None else concat(sslice(s, NONE, sub(n, ONE), NONE), mk('list', r))
        return None

    def elem(i):
        r = store(at(s, i), rest, val)
        if r is None:
            raise ValueError
        return ite(eq(i, k), r, at(s, i))
    try:
        return comp(n, elem)
    except ValueError:
        return None
