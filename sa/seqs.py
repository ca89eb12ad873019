"""Sequence, dictionary and aggregate terms: smart constructors in index normal form."""
import math
from fractions import Fraction
from terms import *
import terms as tm

EMPTY = mk('list')


def is_num(t):
    return t.op == 'num'


def as_int(t):
    if t.op == 'num' and t.args[0].denominator == 1:
        return int(t.args[0])
    return None


# ------------------------------------------------------------ sequences
def seq(*items):
    return mk('list', *items)


def concat(*parts):
    out = []
    for p in parts:
        if p.op == 'unk':
            return p
        if p.op == 'tuple':
            p = mk('list', *p.args)
        if p.op == 'concat':
            out += list(p.args)
        elif p.op == 'list':
            if p.args:
                out.append(p)
        else:
            out.append(p)
    res = []
    for p in out:
        if res and res[-1].op == 'list' and p.op == 'list':
            res[-1] = mk('list', *(res[-1].args + p.args))
        else:
            res.append(p)
    if not res:
        return EMPTY
    if len(res) == 1:
        return res[0]
    return mk('concat', *res)


def comp(n, f):
    """sequence of length n with element f(i)"""
    if n.op == 'unk':
        return n
    c = as_int(n)
    if c is not None and c <= 24:
        return mk('list', *[f(num(i)) for i in range(max(c, 0))])
    i = fresh('i')
    return comp_b([i], [f(i)], [n])


def nonneg_len(t):
    """structurally not negative: lengths and non-negative numbers added up"""
    if t.op == 'num':
        return t.args[0] >= 0
    if t.op == 'len':
        return True
    if t.op == 'poly':
        return all(c >= 0 and all(x.op in ('len',) for x in k.args[0::2]) for k, c in zip(t.args[0::2], t.args[1::2]))
    return False


def split_comp(i, body, n):
    """a comprehension over a concatenation, part by part"""
    if not contains(body, lambda t: t.op == 'concat'):
        return None
    for t in collect(body, lambda t: t.op == 'at' and t.args[0].op == 'concat' and contains(t.args[1], lambda x: x is i)):
        s = t.args[0]
        c = as_int(sub(t.args[1], i))
        if c is None or contains(s, lambda x: x is i) or contains(s, lambda x: x.op == 'bv'):
            continue
        bound = sub(slen(s.args[0]), num(c))
        d = as_int(sub(n, bound))
        if d is None:
            continue
        if d <= 0:
            return comp_b([i], [subst(body, {t: at(s.args[0], t.args[1])})], [n])
        if d <= 4 and nonneg_len(bound):
            return concat(comp_b([i], [subst(body, {t: at(s.args[0], t.args[1])})], [bound]), mk('list', *[subst(body, {i: add(bound, num(q))}) for q in range(d)]))
    return None


def comp_b(vs, bodies, pre):
    i, body, n = vs[0], bodies[0], pre[0]
    c = as_int(n)
    if c is not None and c <= 24:
        return mk('list', *[subst(body, {i: num(j)}) for j in range(max(c, 0))])
    r = split_comp(i, body, n)
    if r is not None:
        return r
    # eta: [s[i] for i in range(len(s))] = s
    if body.op == 'at' and body.args[1] is i and not contains(body.args[0], lambda t: t is i) and slen(body.args[0]) is n:
        return body.args[0]
    return bind('comp', [i], [body], n)


def filt(n, g, f):
    if n.op == 'unk':
        return n
    i = fresh('i')
    return filt_b([i], [g(i), f(i)], [n])


def filt_b(vs, bodies, pre):
    i, (g, e), n = vs[0], bodies, pre[0]
    if g is TRUE:
        return comp_b([i], [e], [n])
    if g is FALSE:
        return EMPTY
    c = as_int(n)
    if c is not None and c <= 24:
        return concat(*[condseq(subst(g, {i: num(j)}), mk('list', subst(e, {i: num(j)}))) for j in range(max(c, 0))])
    return bind('filt', [i], [g, e], n)


def condseq(c, s, t=EMPTY):
    if c is TRUE:
        return s
    if c is FALSE:
        return t
    return ite(c, s, t)


def flat(n, f):
    """concatenation over i<n of the sequence f(i)"""
    if n.op == 'unk':
        return n
    i = fresh('i')
    return flat_b([i], [f(i)], [n])


def flat_b(vs, bodies, pre):
    i, s, n = vs[0], bodies[0], pre[0]
    if s.op == 'unk':
        return s
    c = as_int(n)
    if c is not None and c <= 24:
        return concat(*[subst(s, {i: num(j)}) for j in range(max(c, 0))])
    if s is EMPTY:
        return EMPTY
    if s.op == 'list' and len(s.args) == 1:
        return comp_b([i], [s.args[0]], [n])
    if s.op == 'ite':
        a, b = s.args[1], s.args[2]
        if a.op == 'list' and len(a.args) == 1 and b is EMPTY:
            return filt_b([i], [s.args[0], a.args[0]], [n])
        if b.op == 'list' and len(b.args) == 1 and a is EMPTY:
            return filt_b([i], [not_(s.args[0]), b.args[0]], [n])
        if a.op == 'list' and len(a.args) == 1 and b.op == 'list' and len(b.args) == 1:
            return comp_b([i], [ite(s.args[0], a.args[0], b.args[0])], [n])
    return bind('flat', [i], [s], n)


REBUILD['binder:comp'] = comp_b
REBUILD['binder:filt'] = filt_b
REBUILD['binder:flat'] = flat_b
REBUILD['concat'] = concat


def norm_seq(s):
    if s.op == 'tuple':
        return mk('list', *s.args)
    if s.op == 'arr':
        return norm_seq(s.args[0])
    if s.op == 'rec':
        return mk('list', *s.args[1:])
    if s.op == 'const' and isinstance(s.args[0], str):
        return mk('list', *[const(c) for c in s.args[0]])
    return s


def slen(s):
    s = norm_seq(s)
    if s.op == 'unk':
        return s
    if s.op == 'list':
        return num(len(s.args))
    if s.op == 'comp':
        return binder_parts(s)[2][0]
    if s.op == 'concat':
        return add(*[slen(x) for x in s.args])
    if s.op == 'sortedk':
        return slen(binder_parts(s)[2][0])
    if s.op == 'filt':
        vs, b, p = open_binder(s)
        return sum_(p[0], vs[0], b[0], ONE)
    if s.op == 'flat':
        vs, b, p = open_binder(s)
        return sum_(p[0], vs[0], TRUE, slen(b[0]))
    if s.op == 'ite':
        return ite(s.args[0], slen(s.args[1]), slen(s.args[2]))
    if s.op == 'dictcomp':
        return mk('len', s)
    if s.op == 'dict':
        return num(len(s.args) // 2)
    if s.op == 'keys':
        return mk('len', s.args[0])
    return mk('len', s)


REBUILD['len'] = slen


def at(s, i):
    if i.op == 'ite':
        return ite(i.args[0], at(s, i.args[1]), at(s, i.args[2]))
    if s.op == 'arr':
        r = at(s.args[0], i)
        return r
    if s.op == 'rec' or s.op == 'tuple' or s.op == 'const':
        s = norm_seq(s)
    if s.op == 'unk':
        return s
    if i.op == 'unk':
        return i
    if s.op == 'ite':
        return ite(s.args[0], at(s.args[1], i), at(s.args[2], i))
    c = as_int(i)
    if s.op == 'fstr' and c is not None and c < 0 and s.args[-1].op == 'const' and isinstance(s.args[-1].args[0], str) and len(s.args[-1].args[0]) >= -c:
        return const(s.args[-1].args[0][c])
    if s.op == 'list':
        if c is not None:
            if -len(s.args) <= c < len(s.args):
                return s.args[c]
            return mk('raise', 'IndexError')
        return mk('at', s, i)
    if c is not None and c < 0:
        i = add(slen(s), i)
        c = as_int(i)
    else:
        # x[len(x)-1+...] stays; normalise negative symbolic handled by caller
        pass
    if s.op == 'comp':
        vs, b, p = open_binder(s, [i])
        return b[0]
    if s.op == 'concat':
        off = ZERO
        for k, part in enumerate(s.args):
            ln = slen(part)
            if c is not None and ln.op == 'num' and off.op == 'num':
                if off.args[0] <= c < off.args[0] + ln.args[0]:
                    return at(part, num(c - off.args[0]))
            elif c is not None and off.op == 'num' and ln.op != 'num':
                break
            # from the end: index len - j
            off = add(off, ln)
        # indices counted from the end
        total = slen(s)
        back = sub(total, i)
        bc = as_int(back)
        if bc is not None and bc > 0:
            for part in reversed(s.args):
                ln = slen(part)
                if ln.op != 'num':
                    break
                if bc <= ln.args[0]:
                    return at(part, num(ln.args[0] - bc))
                bc -= int(ln.args[0])
        # leading part of symbolic length: undecided which part
        return mk('at', s, i)
    return mk('at', s, i)


REBUILD['at'] = at


def seq_parts(s):
    """decompose into a list of parts: ('e', elem) | ('m', n, f, gf) | ('fl', n, f) | ('c', cond, partsA, partsB) | None"""
    s = norm_seq(s)
    if s.op == 'list':
        return [('e', x) for x in s.args]
    if s.op == 'concat':
        out = []
        for p in s.args:
            out += seq_parts(p)
        return out
    if s.op == 'comp':
        n = binder_parts(s)[2][0]
        return [('m', n, lambda i, s=s: open_binder(s, [i])[1][0], None)]
    if s.op == 'filt':
        n = binder_parts(s)[2][0]
        return [('m', n, lambda i, s=s: open_binder(s, [i])[1][1], lambda i, s=s: open_binder(s, [i])[1][0])]
    if s.op == 'flat':
        n = binder_parts(s)[2][0]
        return [('fl', n, lambda i, s=s: open_binder(s, [i])[1][0])]
    if s.op == 'ite':
        return [('c', s.args[0], s.args[1], s.args[2])]
    return [('m', slen(s), lambda i, s=s: at(s, i), None)]


def smap(s, f):
    s = norm_seq(s)
    if s.op == 'unk':
        return s
    if s.op == 'list':
        return mk('list', *[f(x) for x in s.args])
    if s.op == 'concat':
        return concat(*[smap(p, f) for p in s.args])
    if s.op == 'comp':
        vs, b, p = open_binder(s)
        return comp_b(vs, [f(b[0])], p)
    if s.op == 'filt':
        vs, b, p = open_binder(s)
        return filt_b(vs, [b[0], f(b[1])], p)
    if s.op == 'flat':
        vs, b, p = open_binder(s)
        return flat_b(vs, [smap(b[0], f)], p)
    if s.op == 'ite':
        return ite(s.args[0], smap(s.args[1], f), smap(s.args[2], f))
    n = slen(s)
    return comp(n, lambda i: f(at(s, i)))


def indexable(s):
    """(n, f) when elements are addressed directly by position"""
    s = norm_seq(s)
    if s.op in ('list',):
        return num(len(s.args)), (lambda i: at(s, i))
    if s.op in ('filt', 'flat', 'ite', 'unk', 'concat'):
        return None
    return slen(s), (lambda i: at(s, i))


def szip(*ss):
    ss = [norm_seq(s) for s in ss]
    for s in ss:
        if s.op == 'unk':
            return s
    if any(s.op == 'list' for s in ss):
        n = min(len(s.args) for s in ss if s.op == 'list')
        if all(s.op == 'list' for s in ss):
            return mk('list', *[mk('tuple', *[s.args[k] for s in ss]) for k in range(n)])
    for s in ss:
        if s.op == 'ite':
            k = ss.index(s)
            a = list(ss); a[k] = s.args[1]
            b = list(ss); b[k] = s.args[2]
            return ite(s.args[0], szip(*a), szip(*b))
    # same filter on both
    if all(s.op == 'filt' for s in ss):
        o = [open_binder(s) for s in ss]
        base = o[0]
        bodies = [base[1][1]]
        ok = True
        for vs, b, p in o[1:]:
            m = {vs[0]: base[0][0]}
            if p[0] is base[2][0] and subst(b[0], m) is base[1][0]:
                bodies.append(subst(b[1], m))
            else:
                ok = False
        if ok:
            return filt_b(base[0], [base[1][0], mk('tuple', *bodies)], base[2])
    lens = [slen(s) for s in ss]
    n = min_len(lens)
    return comp(n, lambda i: mk('tuple', *[at(s, i) for s in ss]))


def min_len(lens):
    n = lens[0]
    for m in lens[1:]:
        if m is n:
            continue
        if m.op == 'const' or n.op == 'const':   # infinite
            n = n if m.op == 'const' else m
            continue
        if m is ZERO or n is ZERO:
            return ZERO
        d = sub(m, n)
        if d.op == 'num':
            n = m if d.args[0] < 0 else n
        else:
            n = min_(n, m)
    return n


def min_(a, b):
    if a is b:
        return a
    d = sub(a, b)
    if d.op == 'num':
        return a if d.args[0] <= 0 else b
    return ite(lt(b, a), b, a)


def max_(a, b):
    if a is b:
        return a
    d = sub(a, b)
    if d.op == 'num':
        return a if d.args[0] >= 0 else b
    return ite(lt(a, b), b, a)


def sslice(s, lo, hi, step):
    s = norm_seq(s)
    if s.op == 'unk':
        return s
    if s.op == 'ite':
        return ite(s.args[0], sslice(s.args[1], lo, hi, step), sslice(s.args[2], lo, hi, step))
    st = 1
    if step is not None and step is not NONE:
        st = as_int(step)
        if st is None or st == 0:
            return unk('slice step')
    lo = None if lo is NONE else lo
    hi = None if hi is NONE else hi
    li = as_int(lo) if lo is not None else None
    hi_i = as_int(hi) if hi is not None else None
    if s.op == 'list' and (lo is None or li is not None) and (hi is None or hi_i is not None):
        return mk('list', *list(s.args)[slice(li, hi_i, st)])
    if s.op == 'fstr' and st == 1 and (lo is None or li == 0) and hi_i is not None and hi_i < 0 and s.args[-1].op == 'const' \
            and isinstance(s.args[-1].args[0], str) and len(s.args[-1].args[0]) >= -hi_i:
        last = s.args[-1].args[0][:hi_i]
        return mk('fstr', *s.args[:-1], *([const(last)] if last else []))
    n = slen(s)
    if st == -1 and lo is None and hi is None:
        ix = indexable(s)
        if ix is None:
            return mk('reversed', s)
        return comp(n, lambda i: at(s, sub(sub(n, ONE), i)))
    if st != 1:
        return mk('slice', s, lo or NONE, hi or NONE, num(st))
    if lo is None:
        lo = ZERO
    elif li is not None and li < 0:
        lo = add(n, lo)
    if hi is None:
        hi = n
    elif hi_i is not None and hi_i < 0:
        hi = add(n, hi)
    if as_int(lo) == 0 and hi is n:
        return s
    if s.op == 'concat' and st == 1:
        def cut(x):
            off = ZERO
            for j, part in enumerate(s.args):
                if sub(x, off) is ZERO:
                    return j
                off = add(off, slen(part))
            return len(s.args) if sub(x, off) is ZERO else None
        j, k = cut(lo), cut(hi)
        if j is not None and k is not None and k >= j:
            return concat(*s.args[j:k])
        if j:
            off = add(*[slen(p) for p in s.args[:j]])
            return sslice(concat(*s.args[j:]), ZERO, sub(hi, off), NONE)
        if j is None and k == len(s.args):
            off = ZERO
            for q, part in enumerate(s.args):
                off = add(off, slen(part))
                back = as_int(sub(off, lo))
                if back is not None and back > 0 and as_int(slen(part)) is None:
                    return concat(sslice(part, sub(slen(part), num(back)), slen(part), NONE), *s.args[q + 1:])
        if k is not None and k < len(s.args):
            return sslice(concat(*s.args[:k]), lo, hi, NONE)
    if s.op == 'concat' and as_int(lo) is not None and hi is n:
        k = as_int(lo)
        if s.args[0].op == 'list' and len(s.args[0].args) >= k:
            return concat(mk('list', *s.args[0].args[k:]), *s.args[1:])
    if s.op == 'concat' and as_int(lo) == 0:
        back = as_int(sub(n, hi))
        if back is not None and s.args[-1].op == 'list' and len(s.args[-1].args) >= back:
            return concat(*s.args[:-1], mk('list', *s.args[-1].args[:len(s.args[-1].args) - back]))
    if s.op == 'concat' and as_int(lo) == 1 and hi is n and as_int(slen(s.args[0])) is None:
        rest = concat(*s.args[1:])
        return ite(pos(slen(s.args[0])), concat(sslice(s.args[0], ONE, NONE, NONE), rest), sslice(rest, ONE, NONE, NONE))
    if as_int(lo) == 0 and as_int(hi) == 1 and as_int(n) is None and nonneg_len(n):
        return ite(pos(n), mk('list', at(s, ZERO)), EMPTY)
    ix = indexable(s)
    if ix is None or (li is None and lo is not ZERO and not sub(n, lo).op == 'num' and False):
        return mk('slice', s, lo, hi, ONE)
    # bounds beyond the length are assumed not to occur for symbolic offsets from the ends; otherwise clamp
    m = sub(hi, lo)
    if hi is not n and as_int(sub(n, hi)) is None and not (as_int(lo) is not None and nonneg_len(sub(n, hi)) and nonneg_len(m)):
        return mk('slice', s, lo, hi, ONE)
    if as_int(lo) is None and as_int(sub(n, lo)) is None:
        return mk('slice', s, lo, hi, ONE)
    return comp(m, lambda i: at(s, add(lo, i)))


def rng(a, b, step=ONE):
    s = as_int(step)
    if s is None:
        if step.op == 'ite':
            return ite(step.args[0], rng(a, b, step.args[1]), rng(a, b, step.args[2]))
        return unk('range step')
    if a.op == 'ite':
        return ite(a.args[0], rng(a.args[1], b, step), rng(a.args[2], b, step))
    if b.op == 'ite':
        return ite(b.args[0], rng(a, b.args[1], step), rng(a, b.args[2], step))
    ai, bi = as_int(a), as_int(b)
    if ai is not None and bi is not None and len(range(ai, bi, s)) <= 24:
        return mk('list', *[num(k) for k in range(ai, bi, s)])
    d = sub(b, a)
    if s == 1:
        n = d
    elif s == -1:
        n = neg(d)
    else:
        n = mk('ceildiv', d, num(s)) if d.op != 'num' else num(max(0, -((-int(d.args[0])) // s)))
    return comp(n, lambda i: add(a, scale(i, s)))


# ------------------------------------------------------------ aggregates
def sum_(n, i, g, e):
    """sum over i<n with guard g of e, linear normal form"""
    for t in (n, g, e):
        if t.op == 'unk':
            return t
    if g is FALSE:
        return ZERO
    c = as_int(n)
    if c is not None and c <= 24:
        tot = ZERO
        for j in range(max(c, 0)):
            m = {i: num(j)}
            tot = add(tot, ite_num(subst(g, m), subst(e, m)))
        return tot
    if e.op == 'ite':
        return add(sum_(n, i, and_(g, e.args[0]), e.args[1]), sum_(n, i, and_(g, not_(e.args[0])), e.args[2]))
    tot = ZERO
    for m, cf in tm._poly_items(e).items():
        inn, out = [], []
        for a, ex in m:
            (inn if contains(a, lambda t: t is i) else out).append((a, ex))
        outer = tm._from_items({tuple(out): cf})
        inner = tm._from_items({tuple(inn): Fraction(1)})
        if inner.op == 'num' and g is TRUE:
            tot = add(tot, mul(outer, n))
        else:
            gg = simplify_index(g, i)
            tot = add(tot, mul(outer, sumc_b([i], [g, inner], [n])))
    return tot


def _perm_strip(i, terms, n):
    """if i is only used through at(sortedk(s,..), i) with len == n, drop the sort (sum/exists are order independent)"""
    uses = set()
    ok = True

    def walk(t, seen):
        nonlocal ok
        if t in seen:
            return
        seen.add(t)
        if t is i:
            ok = False
            return
        if t.op == 'at' and t.args[1] is i:
            uses.add(t.args[0])
            if contains(t.args[0], lambda x: x is i):
                ok = False
            return
        for a in t.args:
            if isinstance(a, T):
                walk(a, seen)
    seen = set()
    for t in terms:
        walk(t, seen)
    if not ok or len(uses) != 1:
        return None
    s = next(iter(uses))
    if s.op not in ('sortedk', 'reversed') or slen(s) is not n:
        return None
    base = binder_parts(s)[2][0] if s.op == 'sortedk' else s.args[0]
    return s, base


def _shift_strip(i, terms, n):
    return None


def sumc_b(vs, bodies, pre):
    i, (g, e), n = vs[0], bodies, pre[0]
    if e.op == 'poly' or e.op == 'num' or e.op == 'ite' or as_int(n) is not None:
        if as_int(n) is not None or not (e.op == 'poly' and len(e.args) == 2 and e.args[1] == 1 and e.args[0].args and
                all(contains(a, lambda t: t is i) for a in e.args[0].args[0::2])):
            if not (e is ONE and g is not TRUE and as_int(n) is None):
                return sum_(n, i, g, e)
    st = _perm_strip(i, [g, e], n)
    if st:
        s, base = st
        parts = seq_parts(base)
        key = mk('at', s, i)
        tot = ZERO
        for p in parts:
            if p[0] == 'e':
                m = {key: p[1]}
                tot = add(tot, ite_num(subst(g, m), subst(e, m)))
            elif p[0] == 'm':
                j = fresh('i')
                m = {key: p[2](j)}
                gg = subst(g, m)
                if p[3] is not None:
                    gg = and_(p[3](j), gg)
                tot = add(tot, sum_(p[1], j, gg, subst(e, m)))
            else:
                return bind('sumc', [i], [g, e], n)
        return tot
    # reversed index: all uses are n-1-i
    r = _reverse_index(i, [g, e], n)
    if r:
        g, e = r
    return bind('sumc', [i], [g, e], n)


def _reverse_index(i, terms, n):
    """canonical direction: when reversing makes the terms smaller (fewer distinct poly nodes), use the reversed index"""
    rev = sub(sub(n, ONE), i)
    used = [False, False]

    def walk(t, seen):
        if t in seen:
            return
        seen.add(t)
        if t is rev:
            used[1] = True
            return
        if t is i:
            used[0] = True
            return
        for a in t.args:
            if isinstance(a, T):
                walk(a, seen)
    seen = set()
    for t in terms:
        walk(t, seen)
    if used[1] and not used[0]:
        return [subst(t, {i: rev}) for t in terms]
    return None


REBUILD['binder:sumc'] = sumc_b


def simplify_index(g, i):
    return g


def ite_num(g, e):
    return ite(g, e, ZERO)


def ssum(s):
    tot = ZERO
    for p in seq_parts(s):
        if p[0] == 'e':
            tot = add(tot, p[1])
        elif p[0] == 'm':
            i = fresh('i')
            tot = add(tot, sum_(p[1], i, p[3](i) if p[3] else TRUE, p[2](i)))
        elif p[0] == 'fl':
            i = fresh('i')
            tot = add(tot, sum_(p[1], i, TRUE, ssum(p[2](i))))
        else:
            tot = add(tot, ite(p[1], ssum(p[2]), ssum(p[3])))
    return tot


def prod_(n, i, e):
    if e.op == 'unk' or n.op == 'unk':
        return e if e.op == 'unk' else n
    c = as_int(n)
    if c is not None and c <= 24:
        return mul(*[subst(e, {i: num(j)}) for j in range(max(c, 0))])
    its = tm._poly_items(e)
    if len(its) == 1:
        (m, cf), = its.items()
        res = power(num(cf), n) if cf != 1 else ONE
        for a, ex in m:
            if a.op == 'exp':
                res = mul(res, exp_(sum_(n, i, TRUE, scale(a.args[0], ex))))
            elif contains(a, lambda t: t is i):
                if a.op == 'pow' and not contains(a.args[0], lambda t: t is i):
                    res = mul(res, power(a.args[0], scale(sum_(n, i, TRUE, a.args[1]), ex)))
                else:
                    res = mul(res, tm._powc(bind('prodc', [i], [a], n), ex))
            else:
                res = mul(res, power(tm._powc(a, ex), n))
        return res
    return bind('prodc', [i], [e], n)


REBUILD['binder:prodc'] = lambda vs, b, p: prod_(p[0], vs[0], b[0])


def exists_(n, i, c):
    for t in (n, c):
        if t.op == 'unk':
            return t
    if c is FALSE:
        return FALSE
    k = as_int(n)
    if k is not None and k <= 24:
        return or_(*[subst(c, {i: num(j)}) for j in range(max(k, 0))])
    if c is TRUE:
        return pos(n)
    if not contains(c, lambda t: t is i):
        return and_(c, pos(n))
    st = _perm_strip(i, [c], n)
    if st:
        s, base = st
        parts = seq_parts(base)
        key = mk('at', s, i)
        if all(p[0] in 'em' for p in parts):
            res = []
            for p in parts:
                if p[0] == 'e':
                    res.append(subst(c, {key: p[1]}))
                else:
                    j = fresh('i')
                    cc = subst(c, {key: p[2](j)})
                    if p[3] is not None:
                        cc = and_(p[3](j), cc)
                    res.append(exists_(p[1], j, cc))
            return or_(*res)
    # or distributes: ite(a, TRUE, b)
    if c.op == 'ite' and c.args[1] is TRUE:
        return or_(exists_(n, i, c.args[0]), exists_(n, i, c.args[2]))
    if c.op == 'ite' and not contains(c.args[0], lambda t: t is i):
        return ite(c.args[0], exists_(n, i, c.args[1]), exists_(n, i, c.args[2]))
    return bind('exists', [i], [c], n)


REBUILD['binder:exists'] = lambda vs, b, p: exists_(p[0], vs[0], b[0])


def member(x, s):
    """x in sequence/set s"""
    s = norm_seq(s)
    if x.op == 'unk':
        return x
    if s.op == 'unk':
        return s
    if s.op == 'dict':
        return or_(*[eq(x, k) for k in s.args[0::2]])
    if s.op == 'dset':
        return or_(eq(x, s.args[1]), member(x, s.args[0]))
    if s.op == 'setop':
        a, b = member(x, s.args[1]), member(x, s.args[2])
        return {'|': or_, '&': and_, '-': lambda p, q: and_(p, not_(q)),
                '^': lambda p, q: ite(p, not_(q), q)}[s.args[0]](a, b)
    if s.op == 'list' or s.op == 'concat' or s.op in ('comp', 'filt', 'flat', 'ite'):
        res = []
        for p in seq_parts(s):
            if p[0] == 'e':
                res.append(eq(x, p[1]))
            elif p[0] == 'm':
                i = fresh('i')
                c = eq(x, p[2](i))
                if p[3]:
                    c = and_(p[3](i), c)
                res.append(exists_(p[1], i, c))
            elif p[0] == 'fl':
                i = fresh('i')
                res.append(exists_(p[1], i, member(x, p[2](i))))
            else:
                res.append(ite(p[1], member(x, p[2]), member(x, p[3])))
        return or_(*res)
    if s.op == 'sortedk':
        return member(x, binder_parts(s)[2][0])
    if s.op in ('keys', 'uniq'):
        return member(x, s.args[0])
    if x.op == 'at' and x.args[0].op == 'keys' and x.args[0].args[0] is s:
        return TRUE
    if x.op == 'at' and x.args[0] is s:
        return TRUE
    return mk('in', x, s)


REBUILD['in'] = member


def iters(cond):
    """number of iterations: least k >= 0 with not cond(k)"""
    k = fresh('k')
    return iters_b([k], [cond(k)], [])


def iters_b(vs, bodies, pre):
    k, c = vs[0], bodies[0]
    if c.op == 'unk':
        return c
    if subst(c, {k: ZERO}) is FALSE:
        return ZERO
    # k < n  (or k <= n-1): n when n >= 0 ; leave canonical as max(n,0)
    if not contains(c, lambda t: t is k):
        return ite(c, mk('const', 'inf#'), ZERO)
    r = _iters_closed(k, c)
    if r is not None:
        return r
    return bind('iters', [k], [c])


def _conjuncts(c):
    if c.op == 'ite' and c.args[2] is FALSE:
        return _conjuncts(c.args[0]) + _conjuncts(c.args[1])
    if c.op == 'ite' and c.args[1] is FALSE:
        return _conjuncts(not_(c.args[0])) + _conjuncts(c.args[2])
    return [c]


def _iters_closed(k, c):
    """a conjunction of linear bounds on the iteration number: the least of the bounds"""
    import lin
    best = None
    free = []
    other = []
    for x in _conjuncts(c):
        if not contains(x, lambda t: t is k):
            free.append(x)
            continue
        n = _iters_bound(k, x)
        if n is None:
            other.append(x)
            continue
        best = n if best is None else ite(pos(sub(n, best)), best, n)
    if best is None:
        return None
    if other:
        n = as_int(best)
        if n is None or n > 12:
            return None
        both = and_(*other)
        for j in reversed(range(n)):
            best = ite(subst(both, {k: num(j)}), best, num(j))
    for x in free:
        best = ite(x, best, ZERO)
    return best


def _iters_bound(k, x):
    import lin
    neg_ = x.op == 'not'
    y = x.args[0] if neg_ else x
    if y.op != 'pos':
        return None
    p = y.args[0]
    a = ZERO
    for mn, cf in tm._poly_items(p).items():
        if any(t is k or contains(t, lambda z: z is k) for t, e in mn):
            if len(mn) != 1 or mn[0][0] is not k or mn[0][1] != 1:
                return None
            a = num(cf)
    rest = sub(p, mul(a, k))
    den = math.lcm(*[Fraction(cf).denominator for cf in tm._poly_items(p).values()]) if p.op in ('poly', 'num') else 1
    if den > 1 and a.op == 'num':
        rest, a = scale(rest, den), num(a.args[0] * den)
    if a.op != 'num' or not lin.is_int_term(rest) or a.args[0].denominator != 1:
        return None
    av = a.args[0]
    if neg_:
        rest, av = sub(ONE, rest), -av        # not(R + a k > 0)  <=>  1 - R - a k > 0
    if av >= 0:
        return None
    av = -av
    if av == 1:
        n = rest
    else:
        if not hasattr(tm, 'MOD'):
            return None
        m = tm.MOD(add(rest, num(av - 1)), num(av))
        n = scale(sub(add(rest, num(av - 1)), m), 1 / av)
    n = ite(pos(n), n, ZERO)
    return n


REBUILD['binder:iters'] = iters_b


def sortedk(s, keyf, rev=False):
    s = norm_seq(s)
    if s.op == 'unk':
        return s
    x = fresh('x')
    key = keyf(x)
    return sortedk_b([x], [key], [s] + ([TRUE] if rev else []))


def sortedk_b(vs, bodies, pre):
    x, key = vs[0], bodies[0]
    s = pre[0]
    if s.op == 'list' and len(s.args) <= 1:
        return s
    if s.op == 'sortedk' and len(pre) == 1:
        v2, b2, p2 = open_binder(s)
        if len(p2) == 1 and subst(b2[0], {v2[0]: x}) is key:
            return s
    if s.op == 'ite':
        return ite(s.args[0], sortedk_b(vs, bodies, [s.args[1]] + pre[1:]), sortedk_b(vs, bodies, [s.args[2]] + pre[1:]))
    if s.op == 'comp':
        # keys that never decrease along the sequence
        (j,), (e,), _ = open_binder(s)
        k0 = subst(key, {x: e})
        d = sub(subst(k0, {j: add(j, ONE)}), k0)
        if d.op == 'num' and (d.args[0] >= 0 if len(pre) == 1 else d.args[0] <= 0):
            return s
    if s.op == 'list':
        # numeric constant keys: sort now
        ks = [subst(key, {x: e}) for e in s.args]
        if all(k.op == 'num' for k in ks):
            o = sorted(range(len(ks)), key=lambda j: ks[j].args[0], reverse=len(pre) > 1)
            return mk('list', *[s.args[j] for j in o])
        if len(s.args) == 2 and len(pre) == 1 and all(k.op in ('num', 'poly', 'sym', 'attr', 'at', 'dateadd', 'mkdate') for k in ks):
            return ite(pos(sub(ks[0], ks[1])), mk('list', s.args[1], s.args[0]), s)
    return bind('sortedk', [x], [key], *pre)


REBUILD['binder:sortedk'] = sortedk_b


# ------------------------------------------------------------ dictionaries
def dget(d, k):
    if d.op == 'unk':
        return d
    if d.op == 'ite':
        return ite(d.args[0], dget(d.args[1], k), dget(d.args[2], k))
    if k.op == 'ite':
        return ite(k.args[0], dget(d, k.args[1]), dget(d, k.args[2]))
    if d.op == 'dict':
        res = mk('raise', 'KeyError')
        for kk, vv in zip(d.args[0::2], d.args[1::2]):
            res = ite(eq(k, kk), vv, res)
        return res
    if d.op == 'dset':
        return ite(eq(k, d.args[1]), d.args[2], dget(d.args[0], k))
    if d.op == 'dictcomp':
        vs, b, p = open_binder(d)
        g, kk, vv = b
        i, n = vs[0], p[0]
        # key addressed by position: d[keyexpr(j)]
        if g is TRUE and kk.op == 'at' and kk.args[1] is i and k.op == 'at' and k.args[0] is kk.args[0]:
            return subst(vv, {i: k.args[1]})
        if g is TRUE and kk is i:
            return subst(vv, {i: k})
        if g is TRUE and kk.op == 'at' and kk.args[1] is i and not contains(kk.args[0], lambda t: t is i):
            # value depends on i only through the key
            key = fresh('key')
            v2 = subst(vv, {kk: key})
            if not contains(v2, lambda t: t is i):
                return subst(v2, {key: k})
    return mk('get', d, k)


REBUILD['get'] = dget


def dset(d, k, v):
    if d.op == 'unk':
        return d
    if d.op == 'ite':
        return ite(d.args[0], dset(d.args[1], k, v), dset(d.args[2], k, v))
    if k.op == 'ite':
        return ite(k.args[0], dset(d, k.args[1], v), dset(d, k.args[2], v))
    if d.op == 'dict':
        items = list(d.args)
        undecided = False
        for j in range(0, len(items), 2):
            e = eq(items[j], k)
            if e is TRUE:
                items[j + 1] = v
                return mk('dict', *items)
            if e is not FALSE:
                undecided = True
        if not undecided:
            return mk('dict', *items, k, v)
    if d.op == 'dset' and d.args[1] is k:
        return mk('dset', d.args[0], k, v)
    return mk('dset', d, k, v)


REBUILD['dset'] = dset


def dictcomp_b(vs, bodies, pre):
    i, (g, k, v), n = vs[0], bodies, pre[0]
    if n.op == 'unk':
        return n
    c = as_int(n)
    if c is not None and c <= 24:
        d = mk('dict')
        for j in range(c):
            m = {i: num(j)}
            gg = subst(g, m)
            d = ite(gg, dset(d, subst(k, m), subst(v, m)), d)
        return d
    return bind('dictcomp', [i], [g, k, v], n)


REBUILD['binder:dictcomp'] = dictcomp_b


def injective(k, i):
    """does the term take different values at different i?"""
    if k is i:
        return True
    if k.op == 'poly':
        c = sub(subst(k, {i: add(i, ONE)}), k)
        return c.op == 'num' and not is_zero(c)
    if k.op in ('tuple', 'rec'):
        return any(isinstance(x, T) and injective(x, i) for x in k.args)
    if k.op == 'at' and k.args[0].op in ('keys', 'setof', 'uniq') and not contains(k.args[0], lambda t: t is i):
        return injective(k.args[1], i)
    return False


def uniq(s):
    """the elements in order of first occurrence"""
    s = norm_seq(s)
    if s.op in ('keys', 'setof', 'uniq', 'unk') or s.op == 'list' and len(s.args) < 2:
        return s
    if s.op == 'ite':
        return ite(s.args[0], uniq(s.args[1]), uniq(s.args[2]))
    if s.op in ('comp', 'filt'):
        vs, b, p = open_binder(s)
        if injective(b[-1], vs[0]):
            return s
    return mk('uniq', s)


REBUILD['uniq'] = uniq


def dkeys(d):
    if d.op == 'dict':
        return mk('list', *d.args[0::2])
    if d.op == 'dset':
        return ite(member(d.args[1], d.args[0]), dkeys(d.args[0]), concat(dkeys(d.args[0]), mk('list', d.args[1])))
    if d.op == 'dictcomp':
        vs, b, p = open_binder(d)
        return uniq(filt_b(vs, [b[0], b[1]], p))
    if d.op == 'ite':
        return ite(d.args[0], dkeys(d.args[1]), dkeys(d.args[2]))
    if d.op == 'unk':
        return d
    return mk('keys', d)


REBUILD['keys'] = dkeys


def dvalues(d):
    if d.op == 'dict':
        return mk('list', *d.args[1::2])
    if d.op == 'dictcomp' and injective(open_binder(d)[1][1], open_binder(d)[0][0]):
        vs, b, p = open_binder(d)
        return filt_b(vs, [b[0], b[2]], p)
    if d.op == 'ite':
        return ite(d.args[0], dvalues(d.args[1]), dvalues(d.args[2]))
    return smap(dkeys(d), lambda k: dget(d, k))


def ditems(d):
    if d.op == 'dictcomp' and injective(open_binder(d)[1][1], open_binder(d)[0][0]):
        vs, b, p = open_binder(d)
        return filt_b(vs, [b[0], mk('tuple', b[1], b[2])], p)
    if d.op == 'dict':
        return mk('list', *[mk('tuple', k, v) for k, v in zip(d.args[0::2], d.args[1::2])])
    if d.op == 'ite':
        return ite(d.args[0], ditems(d.args[1]), ditems(d.args[2]))
    return smap(dkeys(d), lambda k: mk('tuple', k, dget(d, k)))


# ------------------------------------------------------------ attributes of records
FIELDS = {}


def attr_(base, name):
    if base.op == 'ite':
        return ite(base.args[0], attr_(base.args[1], name), attr_(base.args[2], name))
    if base.op == 'rec' and base.args[0] in FIELDS:
        fs = FIELDS[base.args[0]]
        if name in fs:
            return base.args[1 + fs.index(name)]
    if base.op == 'inst' and INST_ATTR[0] is not None:
        r = INST_ATTR[0](base, name)
        if r is not None:
            return r
    return mk('attr', base, name)


INST_ATTR = [None]
REBUILD['attr'] = attr_
