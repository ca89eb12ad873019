"""Loops: explicit sequences are unrolled; otherwise every location written by the body is solved to a closed form in the
iteration number (invariants, induction variables, sums, products, appends, set/dict builds, last values, general iteration)."""
import ast
from fractions import Fraction
from terms import *
import terms as tm
from seqs import *
import seqs
import nd
from lin import Facts

MAX_UNROLL = 40


def for_loop(I, it, st, ctx, body, orelse=None):
    if it.op == 'ite':
        d = st.facts.decide(it.args[0])
        if d is not None:
            return for_loop(I, it.args[1] if d else it.args[2], st, ctx, body, orelse)
        return I.branch(it.args[0], st, lambda s: for_loop(I, it.args[1], s, ctx, body, orelse),
                        lambda s: for_loop(I, it.args[2], s, ctx, body, orelse))
    if it.op == 'unk':
        raise _und(I, it.args[0])
    parts = seq_parts(it)
    out = Out_(I)(fall=(TRUE, st))
    broke = None
    for p in parts:
        if out.fall is None:
            break
        c, s = out.fall
        if s.dead:
            break
        if p[0] == 'e':
            o = one_iter(I, s, lambda s2: body(s2, p[1]))
        elif p[0] == 'm':
            o = sym_loop(I, s, ctx, p[1], p[2], p[3], body)
        elif p[0] == 'fl':
            n, f = p[1], p[2]

            def inner(s2, sub):
                return for_loop(I, sub, s2, ctx, body)
            o = sym_loop(I, s, ctx, n, f, None, inner)
        else:
            o = for_loop(I, mk('ite', p[1], p[2], p[3]), s, ctx, body)
        # o.brk: accumulate
        nb = o.brk
        o.brk = None
        out2 = I.seq_outs(Out_(I)(None, out.ret), c, o)
        if nb is not None:
            nb = (and_(c, nb[0]), nb[1])
            if broke is None:
                broke = nb
            else:
                broke = (or_(broke[0], nb[0]), I.join(broke[0], broke[1], nb[1]))
        out = out2
    if out.fall is not None and out.fall[1].dead:
        # loop body certainly raises
        stt = out.fall[1]
        if out.ret is None and broke is None:
            st.guards = stt.guards
            st.dead = True
            return Out_(I)(fall=(TRUE, st))
        if out.ret is not None:
            out.ret[1].guards = I._gmerge(out.ret[1].guards, stt.guards)
        if broke is not None:
            broke[1].guards = I._gmerge(broke[1].guards, stt.guards)
        out.fall = None
    if orelse and out.fall is not None:
        o2 = I.block(orelse, out.fall[1], ctx)
        out = I.seq_outs(Out_(I)(None, out.ret), out.fall[0], o2)
    if broke is not None:
        if out.fall is None:
            out.fall = broke
        else:
            out.fall = (or_(broke[0], out.fall[0]), I.join(broke[0], broke[1], out.fall[1]))
    return out


def Out_(I):
    from interp import Out
    return Out


def _und(I, msg):
    from interp import Undecided
    return Undecided(msg)


def one_iter(I, s, run):
    """run one iteration; continue exits join the fall exit"""
    o = run(s)
    if o.cont is not None:
        if o.fall is None:
            o.fall = o.cont
        else:
            c = o.fall[0]
            o.fall = (or_(o.fall[0], o.cont[0]), I.join(c, o.fall[1], o.cont[1]))
        o.cont = None
    return o


# ------------------------------------------------------------------ symbolic trip counts
def locs_changed(I, pre, post):
    out = []
    for k, o in post.items():
        p = pre.get(k)
        if p is None:
            p = I.static.get(k)
            if p is None:
                continue
        if p is o:
            continue
        if o[0] == 'frame':
            for n, v in o[1].items():
                if n not in p[1]:
                    out.append(('n', k, n))
                elif p[1][n] is not v:
                    out.append(('v', k, n))
        elif o[0] == 'inst':
            for n, v in o[2].items():
                if n not in p[2]:
                    out.append(('m', k, n))
                elif p[2][n] is not v:
                    out.append(('a', k, n))
        elif p[1] is not o[1]:
            out.append(('h', k, o[0]))
    return out


def loc_get(heap, static, l):
    o = heap.get(l[1])
    if o is None:
        o = static.get(l[1])
    if l[0] in ('v', 'n'):
        return o[1].get(l[2])
    if l[0] in ('a', 'm'):
        return o[2].get(l[2])
    return o[1]


def loc_set(heap, static, l, val):
    o = heap.get(l[1]) or static.get(l[1])
    if l[0] in ('v', 'n'):
        d = dict(o[1])
        d[l[2]] = val
        heap[l[1]] = ('frame', d, o[2])
    elif l[0] in ('a', 'm'):
        d = dict(o[2])
        d[l[2]] = val
        heap[l[1]] = ('inst', o[1], d)
    else:
        heap[l[1]] = (o[0], val)


class LoopIn:
    pass


def prepare(I, st, ctx, run):
    """run the body abstractly until the set of written locations is stable.
    run(state) -> Out ; returns (locs, insyms, out, instate)"""
    locs = []
    insyms = {}
    for _ in range(12):
        s = st.copy()
        s.path = TRUE
        base_guards = len(s.guards)
        for l in locs:
            if l[0] in ('n', 'm'):
                continue
            loc_set(s.heap, I.static, l, insyms[l][1])
        pre = dict(s.heap)
        o = one_iter(I, s, run)
        ends = [x for x in (o.fall, o.brk, o.ret) if x is not None]
        if not ends:
            return locs, insyms, o, s, base_guards, pre
        ch = []
        for x in ends:
            for l in locs_changed(I, pre, x[1].heap):
                if l not in ch:
                    ch.append(l)
        new = [l for l in ch if l not in locs]
        if not new:
            return locs, insyms, o, s, base_guards, pre
        for l in new:
            locs.append(l)
            if l[0] in ('n', 'm'):
                continue
            init = loc_get(st.heap, I.static, l)
            insyms[l] = make_in(I, st, l, init)
    raise _und(I, 'loop did not stabilise')


def template(v):
    """an explicit array with a symbol for each element, or for each row of symbolic length"""
    if v.op == 'arr':
        return mk('arr', template(v.args[0]))
    if v.op == 'list':
        return mk('list', *[template(x) for x in v.args])
    if v.op in ('comp', 'concat', 'filt', 'flat', 'slice') or v.op == 'sym' and nd.isseq(v):
        return mk('sym', fresh('L').args[0], 'seq')
    return mk('sym', fresh('L').args[0], 'num')


def split(I, t, v):
    """[(symbol of the template, component of v)]"""
    if t.op == 'sym':
        return [(t, v)]
    if v.op == 'ite' and t.op in ('arr', 'list'):
        a, b = split(I, t, v.args[1]), split(I, t, v.args[2])
        return [(x, ite(v.args[0], p, q)) for (x, p), (_, q) in zip(a, b)]
    if t.op == 'arr':
        return split(I, t.args[0], v.args[0] if v.op == 'arr' else v)
    v = norm_seq(v) if v.op in ('tuple', 'arr') else v
    if v.op != 'list' or len(v.args) != len(t.args):
        raise _und(I, 'array changes its shape in a loop')
    return [p for x, y in zip(t.args, v.args) for p in split(I, x, y)]


class Leaves:
    """the separately solved components of the written locations"""

    def __init__(self, I, st, locs, insyms, outs):
        self.of, self.sym, self.init, self.out = {}, {}, {}, {}
        for l in locs:
            if l not in insyms:
                continue
            t = insyms[l][0]
            init = loc_get(st.heap, I.static, l)
            if insyms[l][2] and insyms[l][2].endswith('*'):
                init = I.content(init, st)
            if t.op == 'sym':
                self.of[l] = [l]
                self.sym[l], self.init[l], self.out[l] = t, init, outs[l]
                continue
            self.of[l] = []
            out = outs[l]
            ps, qs = split(I, t, init), split(I, t, out) if out is not None else None
            for j, (x, v) in enumerate(ps):
                key = (l, j)
                self.of[l].append(key)
                self.sym[key], self.init[key], self.out[key] = x, v, qs[j][1] if qs else None

    def whole(self, insyms, closed):
        out = {}
        for l, keys in self.of.items():
            if keys == [l]:
                out[l] = closed[l]
            else:
                out[l] = Closed(lambda kk, l=l, keys=keys: subst(insyms[l][0], {self.sym[q]: closed[q](kk) for q in keys}), 'array')
        return out


def make_in(I, st, l, init):
    """(symbol, value put in the location, wrap)"""
    w = I.content(init, st) if init.op == 'ref' else init
    if w.op == 'arr' and w.args[0].op == 'list' and (l[0] == 'h' or init.op != 'ref' or I.obj(st, init)[0] == 'list'):
        t = template(w)
        return (t, t, l[2] if l[0] == 'h' else ('list*' if init.op == 'ref' else None))
    if l[0] == 'h':
        kind = l[2]
        ety = I.elem_ty(init) if kind != 'dict' else None
        s = mk('sym', fresh('L').args[0], 'seq:' + ety if ety and ':' not in ety else ('seq' if kind != 'dict' else 'dict'))
        return (s, s, kind)
    if init.op == 'ref':
        o = I.obj(st, init)
        if o[0] in ('list', 'set', 'dict'):
            s = mk('sym', fresh('L').args[0], 'seq' if o[0] != 'dict' else 'dict')
            # value semantics: variable rebound to fresh containers
            return (s, s, o[0] + '*')
        raise _und(I, 'loop rebinds an object reference')
    if init.op in ('list', 'comp', 'filt', 'flat', 'concat') or init is EMPTY:
        s = mk('sym', fresh('L').args[0], 'seq')
        return (s, s, None)
    ty = I.ty(init)
    if ty in ('float', 'pos', 'nonneg', 'pos_int', 'int'):
        ty = 'num' if ty != 'int' else 'int'
    if ty == 'ndarray' or init.op == 'arr':
        s = mk('sym', fresh('L').args[0], 'ndarray')
        return (s, s, None)
    s = mk('sym', fresh('L').args[0], ty)
    return (s, s, None)


def out_value(I, o_state, pre_heap, l, insym, st0=None):
    v = loc_get(o_state.heap, I.static, l)
    if v is None:
        return None
    newrefs = {k for k in o_state.heap if k not in pre_heap}
    if l[0] != 'h' and v.op == 'ref':
        o = I.obj(o_state, v)
        if o[0] in ('list', 'set', 'dict') and v.args[0] in newrefs:
            return I.freeze(o[1], o_state, newrefs)
    return I.freeze(v, o_state, newrefs)


def additive_rest(v, x):
    """r such that v = x + r with r free of x; distributing over gates. None if impossible"""
    if v is x:
        return ZERO
    if v.op == 'ite':
        if contains(v.args[0], lambda t: t is x):
            return None
        a, b = additive_rest(v.args[1], x), additive_rest(v.args[2], x)
        if a is None or b is None:
            return None
        return ite(v.args[0], a, b)
    if v.op not in ('poly',):
        return None
    r = sub(v, x)
    if contains(r, lambda t: t is x):
        return None
    return r


def mult_rest(v, x):
    if v is x:
        return ONE
    if v.op == 'ite':
        if contains(v.args[0], lambda t: t is x):
            return None
        a, b = mult_rest(v.args[1], x), mult_rest(v.args[2], x)
        if a is None or b is None:
            return None
        return ite(v.args[0], a, b)
    r = div(v, x)
    if contains(r, lambda t: t is x):
        return None
    return r


def append_rest(v, x):
    """s such that v = x ++ s"""
    if v is x:
        return EMPTY
    if v.op == 'ite':
        if contains(v.args[0], lambda t: t is x):
            return None
        a, b = append_rest(v.args[1], x), append_rest(v.args[2], x)
        if a is None or b is None:
            return None
        return ite(v.args[0], a, b)
    if v.op == 'concat' and v.args[0] is x:
        r = concat(*v.args[1:])
        if contains(r, lambda t: t is x):
            return None
        return r
    if v.op == 'setop' and v.args[0] == '|' and v.args[1] is x and not contains(v.args[2], lambda t: t is x):
        return v.args[2]
    return None


def prepend_rest(v, x):
    if v.op == 'concat' and v.args[-1] is x:
        r = concat(*v.args[:-1])
        if not contains(r, lambda t: t is x):
            return r
    return None


def dict_rest(v, x):
    """list of (guard, key, val) such that v = x with the stores applied"""
    if v is x:
        return []
    if v.op == 'dset' and not contains(v.args[1], lambda t: t is x) and not contains(v.args[2], lambda t: t is x):
        r = dict_rest(v.args[0], x)
        return None if r is None else r + [(TRUE, v.args[1], v.args[2])]
    if v.op == 'ite' and not contains(v.args[0], lambda t: t is x):
        a, b = dict_rest(v.args[1], x), dict_rest(v.args[2], x)
        if a is None or b is None:
            return None
        c = v.args[0]
        return [(and_(c, g), k, w) for g, k, w in a] + [(and_(not_(c), g), k, w) for g, k, w in b]
    return None


class Closed:
    """closed form of a location as a function of the iteration number"""

    def __init__(self, f, kind=''):
        self.f = f
        self.kind = kind

    def __call__(self, k):
        return self.f(k)


def iterate(vars_, bodies, j, inits, k, idx):
    """idx-th component of the k-fold iteration of bodies (functions of vars_ and iteration number j)"""
    return iterate_b(list(vars_) + [j], list(bodies), list(inits) + [k, num(idx)])


def iterate_b(vs, bodies, pre):
    k, idx = pre[-2], as_int(pre[-1])
    inits = pre[:-2]
    xs, j = vs[:-1], vs[-1]
    c = as_int(k)
    if c is not None and c <= MAX_UNROLL:
        cur = list(inits)
        for q in range(max(c, 0)):
            m = dict(zip(xs, cur))
            m[j] = num(q)
            cur = [subst(b, m) for b in bodies]
        return cur[idx]
    if bodies[idx] is xs[idx]:
        return inits[idx]
    return bind('iterate', vs, bodies, *pre)


REBUILD['binder:iterate'] = iterate_b


def prev_shift(k, init, f):
    """value before iteration k of a location overwritten with f(i) in every iteration i"""
    f0 = f(ZERO)
    i = fresh('i')
    fi = f(i)
    shifted = subst(fi, {i: sub(k, ONE)})
    # f(-1) == init : uniform
    if subst(fi, {i: num(-1)}) is init:
        return shifted
    m1 = _at_minus_one(fi, i)
    if m1 is not None and m1 is init:
        return shifted
    return ite(zero(k), init, shifted)


def _at_minus_one(fi, i):
    return None


def solve(I, st, lv, k):
    """closed forms for all components: dict l -> Closed"""
    closed = {}
    syms = {x: l for l, x in lv.sym.items()}
    insyms = {l: (x,) for l, x in lv.sym.items()}
    inits = lv.init
    todo = list(lv.sym)
    cur = {l: lv.out[l] for l in todo}
    for l in todo:
        # the length of a list that grows by a fixed number of elements per iteration is known without its contents
        x = insyms[l][0]
        r = append_rest(cur[l], x)
        n = slen(r) if r is not None and r is not EMPTY else None
        if n is not None and n.op in ('num', 'poly') and not contains(n, lambda t: t.op == 'sym') and inits[l].op != 'unk':
            m = {mk('len', x): add(slen(inits[l]), mul(k, n))}
            for l2 in todo:
                if contains(cur[l2], lambda t: t.op == 'len' and t.args[0] is x):
                    cur[l2] = subst(cur[l2], m)
    progress = True
    while todo and progress:
        progress = False
        for l in list(todo):
            v = cur[l]
            x = insyms[l][0]
            deps = {t for t in collect(v, lambda t: t.op == 'sym' and t in syms)}
            others = {syms[t] for t in deps if t is not x and syms[t] in todo}
            if others:
                continue
            c = solve_one(I, l, x, v, inits[l], k, st)
            closed[l] = c
            todo.remove(l)
            progress = True
            ck = c(k)
            for l2 in todo:
                cur[l2] = subst(cur[l2], {x: ck})
            outs_sub = {x: ck}
        if todo and not progress:
            # mutually dependent group: strongly connected part iterated jointly
            group = scc(todo, cur, insyms, syms)
            xs = [insyms[l][0] for l in group]
            bodies = [cur[l] for l in group]
            init_vals = [inits[l] for l in group]
            for gi, l in enumerate(group):
                closed[l] = Closed(lambda kk, gi=gi, xs=xs, bodies=bodies, iv=init_vals: iterate(xs, bodies, k, iv, kk, gi), 'joint')
            m = {insyms[l][0]: closed[l](k) for l in group}
            for l in group:
                todo.remove(l)
            for l2 in todo:
                cur[l2] = subst(cur[l2], m)
            progress = True
    return closed


def scc(todo, cur, insyms, syms):
    deps = {}
    for l in todo:
        deps[l] = {syms[t] for t in collect(cur[l], lambda t: t.op == 'sym' and t in syms) if syms[t] in todo}
    # a minimal closed set
    best = None
    for l in todo:
        seen = {l}
        stack = [l]
        while stack:
            for d in deps[stack.pop()]:
                if d not in seen:
                    seen.add(d)
                    stack.append(d)
        if best is None or len(seen) < len(best):
            best = seen
    return [l for l in todo if l in best]


def store_rest(v, x, k):
    """value written at position k of x in iteration k when v is x with exactly that element replaced"""
    if v.op == 'ite' and v.args[2] is x:
        w = store_rest(v.args[1], x, k)
        return None if w is None or touches_other(v.args[0], x, k) else ite(v.args[0], w, at(x, k))
    if v.op == 'ite' and v.args[1] is x:
        w = store_rest(v.args[2], x, k)
        return None if w is None or touches_other(v.args[0], x, k) else ite(v.args[0], at(x, k), w)
    if v.op != 'comp':
        return None
    (j,), (b,), (n,) = open_binder(v)
    if n is not mk('len', x) or b.op != 'ite' or b.args[2] is not at(x, j) or b.args[0].op != 'zero':
        return None
    d = b.args[0].args[0]
    if d is not sub(j, k) and d is not sub(k, j):
        return None
    w = b.args[1]
    if contains(w, lambda t: t is j):
        w = subst(w, {j: k})
    return None if touches_other(w, x, k) else w


def touches_other(w, x, k):
    m = mk('sym', '%elem', None)
    return contains(subst(w, {at(x, k): m, mk('len', x): m}), lambda t: t is x)


def solve_one(I, l, x, v, init, k, st):
    if v is x:
        return Closed(lambda kk: init, 'inv')
    w = store_rest(v, x, k)
    if w is not None:
        n = slen(init)

        def stored(kk):
            def elem(j):
                y = subst(w, {at(x, k): at(init, j), mk('len', x): n, k: j})
                return y if kk is n else ite(lt(j, kk), y, at(init, j))
            return comp(n, elem)
        return Closed(stored, 'store')
    if not contains(v, lambda t: t is x):
        f = lambda i: subst(v, {k: i})
        if not contains(v, lambda t: t is k) and v is init:
            return Closed(lambda kk: init, 'inv')
        return Closed(lambda kk: prev_shift(kk, init, f), 'last')
    r = append_rest(v, x)
    if r is not None:
        return Closed(lambda kk: concat(init, flat(kk, lambda i: subst(r, {k: i}))), 'append')
    r = prepend_rest(v, x)
    if r is not None:
        rv = lambda kk: concat(flat(kk, lambda i: subst(r, {k: sub(sub(kk, ONE), i)})), init)
        return Closed(rv, 'prepend')
    d = dict_rest(v, x)
    if d is not None:
        if init.op == 'dict' and not init.args and len(d) == 1:
            g, key, val = d[0]

            def mkd(kk):
                i = fresh('i')
                return dictcomp_b([i], [subst(g, {k: i}), subst(key, {k: i}), subst(val, {k: i})], [kk])
            return Closed(mkd, 'dict')
    r = additive_rest(v, x)
    if r is not None:
        def add_form(kk):
            i = fresh('i')
            return add(init, sum_(kk, i, TRUE, subst(r, {k: i})))
        return Closed(add_form, 'sum')
    r = mult_rest(v, x)
    if r is not None and I.ty(init) not in ('date', 'datetime', 'ndarray'):
        def mul_form(kk):
            i = fresh('i')
            return mul(init, prod_(kk, i, subst(r, {k: i})))
        return Closed(mul_form, 'prod')
    return Closed(lambda kk: iterate([x], [v], k, [init], kk, 0), 'iter')


def install(I, st, locs, insyms, vals):
    for l in locs:
        v = vals.get(l)
        if v is None:
            continue
        w = insyms[l][2] if l in insyms else None
        if w and w.endswith('*'):
            v = I.alloc(st, (w[:-1], v))
        loc_set(st.heap, I.static, l, v)


def resolver(facts):
    import equiv
    e = equiv.Equiv()
    memo = {}

    def r(t):
        t2 = e.resolve(t, facts, memo)
        if t2.op in ('pos', 'zero', 'eq', 'not', 'call', 'truth', 'in', 'exists', 'sym', 'at', 'attr'):
            if t2.op in ('call', 'sym', 'at', 'attr'):
                return t2
            d = facts.decide(t2)
            if d is not None:
                return boolc(d)
        return t2
    return r


def invariants(I, st, lv, k, guards, incond):
    """branch and raise conditions of the body that hold in every iteration, by induction: they hold at entry and a step preserves
    them (largest inductive subset of the candidates).  Returns facts extended with them, or None."""
    syms = {x: l for l, x in lv.sym.items()}
    outs = lv.out
    if not syms:
        return None
    cands = []
    seen = set()

    def visit(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == 'ite':
            atom(t.args[0])
        for a in t.args:
            if isinstance(a, T):
                visit(a)

    def atom(c):
        if c.op == 'ite':
            for a in c.args:
                atom(a)
            return
        if c.op == 'not':
            c = c.args[0]
        if c is TRUE or c is FALSE or has_unk(c) or contains(c, lambda x: x.op == 'bv'):
            return
        if contains(c, lambda x: x is k) or not contains(c, lambda x: x in syms):
            return
        if c not in cands:
            cands.append(c)
    for v in outs.values():
        if v is not None:
            visit(v)
    for g in guards:
        atom(g)
        visit(g)
    if not cands:
        return None
    init = {x: lv.init[l] for l, x in lv.sym.items()}
    live = []
    for c in cands[:20]:
        d = st.facts.decide(subst(c, init))
        if d is not None:
            live.append(c if d else not_(c))
    while live:
        f = st.facts.add(incond)
        for c in live:
            f = f.add(c)
        r = resolver(f)
        step = {x: r(outs[l]) for l, x in lv.sym.items() if outs.get(l) is not None}
        bad = [c for c in live if f.decide(subst(c, step)) is not True]
        if not bad:
            g = st.facts
            for c in live:
                g = g.add(c)
            return g
        live = [c for c in live if c not in bad]
    return None


def finish(I, st, ctx, n, k, locs, insyms, o, base_guards, pre, instate, infinite=False):
    """close the loop: n trips (None when unbounded) given the body's exits"""
    from interp import Out
    fall, brk, ret = o.fall, o.brk, o.ret
    src_guards = []
    seen = set()
    for x in (fall, brk, ret):
        if x is not None:
            for g in x[1].guards[base_guards:]:
                if id(g) not in seen:
                    seen.add(id(g))
                    src_guards.append(g)
    if fall is None and brk is None and ret is None:
        src_guards = instate.guards[base_guards:]
    outs = {}
    if fall is not None:
        for l in locs:
            outs[l] = out_value(I, fall[1], pre, l, insyms.get(l))
    else:
        for l in locs:
            outs[l] = insyms[l][0] if l in insyms else None
    solvable = [l for l in locs if l in insyms]
    inv = None
    lv = Leaves(I, st, solvable, insyms, outs)
    if fall is not None:
        inv = invariants(I, st, lv, k, [c for c, e in src_guards], lt(k, n) if n is not None else TRUE)
        if inv is not None:
            r = resolver(inv)
            outs = {l: (r(v) if v is not None else None) for l, v in outs.items()}
            lv.out = {l: (r(v) if v is not None else None) for l, v in lv.out.items()}
            src_guards = [(r(c), e) for c, e in src_guards]
            src_guards = [(c, e) for c, e in src_guards if c is not FALSE]
    parts = solve(I, st, lv, k)
    closed = lv.whole(insyms, parts)
    at_k = {x: parts[l](k) for l, x in lv.sym.items()}
    # exits
    exit_c = FALSE
    if brk is not None:
        exit_c = or_(exit_c, brk[0])
    if ret is not None:
        exit_c = or_(exit_c, ret[0])
    exit_k = subst(exit_c, at_k)
    inrange = TRUE if infinite else lt(k, n)
    if exit_k is FALSE:
        trips = n
        broke = FALSE
    else:
        kk = fresh('k')
        trips = iters_b([kk], [subst(and_(inrange, not_(exit_k)), {k: kk})], [])
        broke = TRUE if infinite else lt(trips, n)
        if not infinite:
            broke = exists_(n, k2 := fresh('i'), subst(exit_k, {k: k2}))
    if trips is None:
        raise _und(I, 'unbounded loop')
    if trips.op == 'const':
        raise _und(I, 'loop does not terminate')
    # guards
    for c, e in src_guards:
        cc = subst(c, at_k)
        if contains(cc, lambda t: t.op == 'sym' and t.args[0].startswith('%L')):
            cc = unk('loop guard')
        ni = fresh('i')
        reach = trips if broke is FALSE else add(trips, ONE)
        g = exists_(reach, ni, subst(cc, {k: ni}))
        st.guards.append((and_(st.path, g), e))
        if g.op != 'unk':
            st.facts = st.facts.add(not_(g))
    # body locations first defined inside the loop: value of the last iteration
    def final_state(base, s_exit, tt, last=False):
        """state after exit at iteration number tt; s_exit None: exhausted"""
        s = base.copy()
        vals = {}
        if s_exit is None:
            for l in solvable:
                vals[l] = closed[l](tt)
            install(I, s, solvable, insyms, vals)
            for l in locs:
                if l[0] in ('n', 'm') and outs.get(l) is not None:
                    v = subst(outs[l], at_k)
                    loc_set(s.heap, I.static, l, subst(v, {k: sub(tt, ONE)}))
        else:
            at_t = {x: parts[l](tt) for l, x in lv.sym.items()}
            at_t[k] = tt
            for l in locs:
                v = out_value(I, s_exit, pre, l, insyms.get(l))
                if v is None:
                    continue
                vals[l] = subst(v, at_t)
            install(I, s, [l for l in locs if l in insyms], insyms, vals)
            for l in locs:
                if l[0] in ('n', 'm') and l in vals:
                    loc_set(s.heap, I.static, l, vals[l])
        return s
    res = Out()
    if exit_k is FALSE:
        s = final_state(st, None, n)
        st.become(s)
        res.fall = (TRUE, st)
        return res
    if ret is None:
        # break only: same state when nothing was written before the break in its iteration
        s_b = final_state(st, brk[1], trips)
        if infinite:
            st.become(s_b)
            res.fall = (TRUE, st)
            return res
        same = all(out_value(I, brk[1], pre, l, insyms.get(l)) is insyms[l][0] for l in solvable) and \
            not any(l[0] in ('n', 'm') and loc_get(brk[1].heap, I.static, l) is not None for l in locs)
        if same:
            s = final_state(st, None, trips)
            st.become(s)
            res.brk = (broke, st.copy())
            res.fall = (not_(broke), st)
            return res
        s_e = final_state(st, None, n)
        res.brk = (broke, s_b)
        res.fall = (not_(broke), s_e)
        if broke is TRUE:
            res.fall = None
        return res
    if brk is not None:
        raise _und(I, 'loop with break and return')
    s_r = final_state(st, ret[1], trips)
    at_t = {x: parts[l](trips) for l, x in lv.sym.items()}
    at_t[k] = trips
    newrefs = {q for q in ret[1].heap if q not in pre}
    rv = subst(I.freeze(ret[2], ret[1], newrefs), at_t)
    res.ret = (broke, s_r, rv)
    if broke is not TRUE:
        res.fall = (not_(broke), final_state(st, None, n))
    return res


def sym_loop(I, st, ctx, n, elem, guard, body):
    """n iterations (symbolic), element elem(k), optional guard(k)"""
    k = mk('sym', fresh('k').args[0], 'int')
    base_facts = st.facts

    def run(s):
        s.facts = s.facts.add(lt(k, n))
        if guard is not None:
            g = guard(k)
            return I.branch(g, s, lambda s2: body(s2, elem(k)), lambda s2: Out_(I)(fall=(TRUE, s2)))
        return body(s, elem(k))
    locs, insyms, o, s, bg, pre = prepare(I, st, ctx, run)
    return finish(I, st, ctx, n, k, locs, insyms, o, bg, pre, s)


def while_loop(I, node, st, ctx):
    from interp import Out
    # decided iterations are unrolled
    probe = st
    out = None
    ran = 0
    saved = st.copy()
    cur = Out(fall=(TRUE, st))
    acc_ret = None
    if not (isinstance(node.test, ast.Constant) and node.test.value):
        s = st.copy()
        done = False
        while ran < 20:
            c = I.cond(node.test, s, ctx)
            if s.dead:
                st.become(s)
                return Out(fall=(TRUE, st))
            if c.op == 'unk':
                raise _und(I, 'loop condition: ' + str(c.args[0]))
            d = s.facts.decide(c)
            if d is False:
                done = True
                break
            if d is None:
                break
            o = one_iter(I, s, lambda s2: I.block(node.body, s2, ctx))
            if o.ret is not None or o.brk is not None or o.fall is None:
                break
            s = o.fall[1]
            if s.dead:
                st.become(s)
                return Out(fall=(TRUE, st))
            ran += 1
        if done:
            st.become(s)
            o = Out(fall=(TRUE, st))
            if node.orelse:
                return I.block(node.orelse, st, ctx)
            return o
    k = mk('sym', fresh('k').args[0], 'int')
    holder = {}

    def run(s):
        c = I.cond(node.test, s, ctx)
        holder['c'] = c
        if c.op == 'unk':
            raise _und(I, 'loop condition: ' + str(c.args[0]))
        if s.dead:
            return Out(fall=(TRUE, s))
        s.facts = s.facts.add(c)
        return I.block(node.body, s, ctx)
    locs, insyms, o, s, bg, pre = prepare(I, st, ctx, run)
    c = holder['c']
    if c is TRUE:
        return finish(I, st, ctx, None, k, locs, insyms, o, bg, pre, s, infinite=True)
    # trip count: first k at which the condition fails
    if o.fall is None:
        # leaves in the first iteration whenever it is entered
        return I.branch(I.cond(node.test, st, ctx), st, lambda s2: unwrap(I.block(node.body, s2, ctx)), lambda s2: Out(fall=(TRUE, s2)))
    outs = {l: out_value(I, o.fall[1], pre, l, insyms.get(l)) for l in locs}
    solvable = [l for l in locs if l in insyms]
    lv = Leaves(I, st, solvable, insyms, outs)
    inv = invariants(I, st, lv, k, [g for g, e in o.fall[1].guards[bg:]], c)
    if inv is not None:
        r = resolver(inv)
        lv.out = {l: (r(v) if v is not None else None) for l, v in lv.out.items()}
    parts = solve(I, st, lv, k)
    closed = lv.whole(insyms, parts)
    at_k = {x: parts[l](k) for l, x in lv.sym.items()}
    ck = subst(c, at_k)
    kk = fresh('k')
    n = iters_b([kk], [subst(ck, {k: kk})], [])
    if n.op == 'const':
        raise _und(I, 'loop does not terminate')
    if n.op == 'ite':
        n = simplify_n(n, st)
    r = finish(I, st, ctx, n, k, locs, insyms, o, bg, pre, s)
    # while body guards were evaluated under the loop condition
    if r.brk is not None:
        if r.fall is None:
            r.fall = r.brk
        else:
            r.fall = (or_(r.brk[0], r.fall[0]), I.join(r.brk[0], r.brk[1], r.fall[1]))
        r.brk = None
    return r


def unwrap(o):
    if o.brk is not None:
        if o.fall is None:
            o.fall = o.brk
        o.brk = None
    if o.cont is not None:
        if o.fall is None:
            o.fall = o.cont
        o.cont = None
    return o


def simplify_n(n, st):
    d = st.facts.decide(n.args[0])
    if d is True:
        n = n.args[1]
    elif d is False:
        n = n.args[2]
    if n.op == 'const' or n.op == 'ite' and contains(n, lambda t: t.op == 'const' and t.args[0] == 'inf#'):
        from interp import Undecided
        raise Undecided('loop may not terminate')
    return n
