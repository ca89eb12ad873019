"""Equality of value graphs: gates are split under the linear/enumeration facts, leaves are compared in normal form, binders are
opened with a shared index.  Three verdicts: EQ (same node after normalisation), NEQ (the graphs differ in an uninterpreted or
aligned position, so some input separates them), UNK (the domain cannot tell)."""
from fractions import Fraction
import itertools
import time
from terms import *
import terms as tm
from seqs import *
import seqs
import lin

EQ, NEQ, UNK = 'EQ', 'NEQ', 'UNK'


DEADLINE = [None]      # of the comparison under way


class Budget(Exception):
    pass


FREE = {'num', 'poly', 'sym', 'attr', 'enum', 'const', 'cls', 'fn', 'pyfn', 'mono', 'exp', 'log', 'pow', 'tuple', 'rec', 'list', 'epsilon', 'slicev', 'mkdatetime'}


_FBV = {}
_NONE = frozenset()


RANGED = ('comp', 'flat', 'filt', 'sumc', 'prodc', 'exists')


def freebv(t):
    """bound variables occurring outside their binder"""
    r = _FBV.get(t)
    if r is not None:
        return r
    if t.op == 'bv':
        r = frozenset((t,))
    else:
        r = _NONE
        for a in t.args:
            if isinstance(a, T) and a.height:
                x = freebv(a)
                if x:
                    r = r | x
        if r and t.op in BINDERS:
            r = r - frozenset(binder_parts(t)[0])
    _FBV[t] = r
    return r


def Facts_(facts):
    return lin.Facts(tuple(c for c in facts.conds if (c.args[0] if c.op == 'not' else c).op != 'exists'), frozenset(c for c in facts.conds if (c.args[0] if c.op == 'not' else c).op != 'exists'), None)


MODELLED = ('random.', 'numpy.linalg.eig.scale', 'scipy.optimize.minimize', 'scipy.optimize.root', 'scipy.interpolate.interp1d', 'last trial', 'pandas.date_range', 'isclose')
_UNM = {}


def unmodelled(t, interp):
    """the result of a library operation the summaries do not describe: an unknown, not a freely chosen value"""
    r = _UNM.get(t)
    if r is None:
        r = False
        if t.op == 'call':
            h = t.args[0]
            if h.op == 'pyfn':
                r = not h.args[0].startswith(MODELLED)
            elif h.op == 'attr':
                ty = interp.ty(h.args[0]) if interp is not None else None
                r = not (ty and ty.startswith(('obj:', 'fn:'))) and h.args[0].op not in ('sym', 'attr', 'call', 'at', 'get')
        elif t.op == 'unk':
            r = True
        r = r or any(isinstance(x, T) and unmodelled(x, interp) for x in t.args)
        _UNM[t] = r
    return r


class Equiv:
    def __init__(self, interp=None, leaves=3000):
        self.leaves = leaves
        self.witness = None
        self.memo = {}
        self.interp = interp
        self.depth = 0
        self.unk_reason = None

    # ------------------------------------------------------------------ gates
    def resolve(self, t, facts, memo=None):
        """remove gates decided by the facts (conditions free of bound variables)"""
        if memo is None:
            memo = {}
        r = memo.get(t)
        if r is not None:
            return r
        if DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
            raise Budget()
        if not t.args or t.op in ('num', 'const', 'sym', 'bv', 'enum', 'unk'):
            r = t
        elif t.op == 'ite':
            c = self.resolve(t.args[0], facts, memo)
            if c.op == 'ite':
                r = self.resolve(ite(c, t.args[1], t.args[2]), facts, memo)
            else:
                d = True if c is TRUE else (False if c is FALSE else facts.decide(c))
                if d is True:
                    r = self.resolve(t.args[1], facts, memo)
                elif d is False:
                    r = self.resolve(t.args[2], facts, memo)
                else:
                    r = ite(c, self.resolve(t.args[1], facts, memo), self.resolve(t.args[2], facts, memo))
        else:
            ch = False
            if t.op in BINDERS:
                vs_, b_, p_ = open_binder(t)
                f2, m2 = facts, memo
                if t.op in RANGED and p_:
                    for f in facts.conds:
                        if f.op == 'not' and f.args[0].op == 'exists':
                            ve, be, pe = open_binder(f.args[0], vs_[:1])
                            if pe[0] is p_[0] and be[0].op in ('pos', 'zero', 'eq', 'in', 'isinst', 'truth', 'not', 'exists'):
                                f2, m2 = f2.add(not_(be[0])), {}
                nb = [self.resolve(x, f2, m2) for x in b_]
                np_ = [self.resolve(x, facts, memo) if isinstance(x, T) else x for x in p_]
                ch = any(x is not y for x, y in zip(nb + np_, b_ + list(p_)))
                r = tm.close(t.op, vs_, nb, np_) if ch else t
            else:
                na = []
                for a in t.args:
                    if isinstance(a, T):
                        b = self.resolve(a, facts, memo)
                        ch = ch or b is not a
                        na.append(b)
                    else:
                        na.append(a)
                r = rebuild(t, na) if ch else t
            if r.op == 'iters' and not self.bound(r):
                vs_, b_, _p = open_binder(r)
                if facts.decide(subst(b_[0], {vs_[0]: ZERO})) is False:
                    r = ZERO
            if r.op in ('pos', 'zero', 'eq', 'in', 'exists', 'truth', 'isinst') and not self.bound(r):
                d = facts.decide(r)
                if d is not None:
                    r = boolc(d)
        memo[t] = r
        return r

    def bound(self, t):
        return bool(freebv(t))

    def pick(self, t, seen):
        """an undecided gate condition without bound variables"""
        stack = [t]
        found = None
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'ite':
                c = x.args[0]
                if not self.bound(c):
                    # innermost condition first
                    inner = self.pick(c, seen)
                    return inner if inner is not None else c
            for a in reversed(x.args):
                if isinstance(a, T):
                    stack.append(a)
        return found

    def unify(self, c, a, b):
        """use an equality to rewrite"""
        m = None
        if c.op == 'eq':
            x, y = c.args
            if x.op in ('enum', 'const') and y.op in ('sym', 'attr', 'at', 'call', 'get'):
                m = {y: x}
            elif y.op in ('enum', 'const') and x.op in ('sym', 'attr', 'at', 'call', 'get'):
                m = {x: y}
        elif c.op == 'zero':
            d = c.args[0]
            its = tm._poly_items(d)
            best = None
            for mn, cf in its.items():
                if len(mn) == 1 and mn[0][1] == 1 and mn[0][0].op in ('sym', 'at', 'attr', 'call', 'get', 'len', 'year', 'month', 'day', 'weekday'):
                    at_ = mn[0][0]
                    rest = scale(sub(d, tm._from_items({mn: cf})), -1 / cf)
                    if not contains(rest, lambda t: t is at_):
                        if best is None or at_.uid > best[0].uid:
                            best = (at_, rest)
            if best:
                m = {best[0]: best[1]}
        if m:
            return subst(a, m), subst(b, m)
        return a, b

    # ------------------------------------------------------------------ main
    def compare(self, a, b, facts, top=True):
        if a is b and not has_unk(a):
            return EQ
        self.leaves -= 1
        if self.leaves < 0 or DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
            raise Budget()
        memo = {}
        a = self.resolve(a, facts, memo)
        b = self.resolve(b, facts, memo)
        if a is b and not has_unk(a):
            return EQ
        a, b = self.boolform(a), self.boolform(b)
        if a.op == 'ite' or b.op == 'ite':
            # prefer an outermost gate
            c = a.args[0] if a.op == 'ite' else b.args[0]
            if a.op == 'ite' and b.op == 'ite' and b.args[0] is not c:
                if contains(a, lambda t: t is b.args[0]):
                    c = b.args[0]
            inner = self.pick(c, set())
            c = inner if inner is not None else c
        else:
            c = self.pick(a, set())
            if c is None:
                c = self.pick(b, set())
        if c is None:
            return self.leaf(a, b, facts)
        if c.op == 'unk' or has_unk(c):
            self.unk_reason = first_unk(c)
            return UNK
        res = EQ
        for pol in (True, False):
            lit = c if pol else not_(c)
            d = facts.decide(lit)
            if d is False:
                continue
            f2 = facts.add(lit)
            if self.infeasible(f2):
                continue
            a2, b2 = (a, b)
            if pol:
                a2, b2 = self.unify(c, a, b)
            r = self.compare(a2, b2, f2, top)
            if r == NEQ:
                return NEQ
            if r == UNK:
                res = UNK
        return res

    def boolform(self, t):
        if t.op in ('pos', 'zero', 'eq', 'in', 'exists', 'truth', 'isinst', 'seteq'):
            return mk('ite', t, TRUE, FALSE)
        if t.op == 'not':
            return mk('ite', t.args[0], FALSE, TRUE)
        return t

    def infeasible(self, facts):
        if lin.infeasible(facts):
            return True
        # exists(n, P) and not exists(n, Q) with P => Q
        ex = [f for f in facts.conds if f.op == 'exists']
        nx = [f.args[0] for f in facts.conds if f.op == 'not' and f.args[0].op == 'exists']
        for p in ex:
            for q in nx:
                if self.exists_implies(p, q, facts):
                    return True
        # calendar consistency: equal dates have equal fields is structural; nothing else is assumed
        return False

    def exists_implies(self, p, q, facts):
        vs, b, pre = open_binder(p)
        vq, bq, preq = open_binder(q)
        i, n, c = vs[0], pre[0], b[0]
        m, d = preq[0], bq[0]
        # same range or a larger one
        if facts.decide(lt(m, n)) is not False and n is not m:
            return False
        d2 = subst(d, {vq[0]: i})
        f = facts.add(c).add(lt(i, n))
        return f.decide(d2) is True

    # ------------------------------------------------------------------ leaves
    def denied(self, a, b, facts):
        """a denied existential over data that a guard inside a or b is about"""
        nx = [f.args[0] for f in facts.conds if f.op == 'not' and f.args[0].op == 'exists']
        if not nx:
            return False
        for t in (a, b):
            for g in collect(t, lambda t: t.op == 'ite' and bool(freebv(t.args[0]))):
                if any(self.related(g.args[0], q) for q in nx):
                    return True
        return False

    def possible(self, facts, budget=64):
        """can the path conditions hold together, the alternatives among them taken apart?"""
        alt = [c for c in facts.conds if c.op == 'ite']
        if not alt:
            return True
        f = lin.Facts()
        for c in facts.conds:
            if c.op != 'ite':
                f = f.add(c)
        todo = [(f, tuple(alt))]
        while todo:
            f, rest = todo.pop()
            budget -= 1
            if budget < 0:
                return True
            if not rest:
                if not lin.infeasible(f):
                    return True
                continue
            c, rest = rest[0], rest[1:]
            if c.op != 'ite':
                if f.decide(c) is not False:
                    todo.append((f.add(c), rest))
                continue
            p, x, y = c.args
            d = f.decide(p)
            for side, part, lit in ((True, x, p), (False, y, not_(p))):
                if d in (None, side) and part is not FALSE:
                    todo.append((f.add(lit), (rest if part is TRUE else (part,) + rest)))
        return False

    def clash(self, facts):
        """do the path conditions contradict one another once what they equate is put in place of each other?"""
        key = ('clash', facts.conds)
        if key not in self.memo:
            m, r = self.equalities(facts), False
            if m:
                f = lin.Facts()
                for c in facts.conds:
                    c = subst(c, m)
                    if c is FALSE or c.op != 'ite' and f.decide(c) is False:
                        r = True
                        break
                    if c is not TRUE and c.op != 'ite':
                        f = f.add(c)
                r = r or lin.infeasible(f)
            self.memo[key] = r
        return self.memo[key]

    def differ(self, a, b, facts, why=''):
        if not self.possible(facts) or self.clash(facts):
            return EQ
        if self.denied(a, b, facts):
            self.unk_reason = 'a guard the path condition restricts'
            return UNK
        if self.dubious(facts):
            self.unk_reason = 'path condition outside the decidable domain'
            return UNK
        if any(unmodelled(t, self.interp) for t in (a, b, *facts.conds)):
            self.unk_reason = 'a library operation outside the summaries'
            return UNK
        if self.witness is None:
            self.witness = (a, b, facts, why)
        return NEQ

    def dubious(self, facts):
        """literals whose joint satisfiability the domain cannot vouch for"""
        pos_, neg_ = [], []
        for f in facts.conds:
            g, ng = (f.args[0], True) if f.op == 'not' else (f, False)
            if contains(g, lambda t: t.op in ('fstr', 'raise')):
                return True
            if g.op in ('pos', 'zero') and len(tm._poly_items(g.args[0])) > 1 and any(not self.free(x) and not self.generic(x, facts) and x.op in
                                                  ('iters', 'first', 'minseq', 'maxseq', 'iterate', 'prodc', 'sumc') for x in self.top_atoms(g.args[0])):
                return True
            if g.op in ('exists', 'in', 'truth', 'isinst'):
                (neg_ if ng else pos_).append(g)
        # order or equality literals on re-arranged data, next to other literals on the same data
        HARD = ('slice', 'uniq', 'reversed', 'setop', 'setof', 'filt', 'flat', 'bisect_l', 'bisect_r', 'first', 'dictcomp', 'dset')
        lits = [f.args[0] if f.op == 'not' else f for f in facts.conds]
        for f in lits:
            if f.op in ('pos', 'zero', 'eq') and contains(f, lambda t: t.op in HARD):
                if any(g is not f and g.op in ('pos', 'zero', 'eq', 'in', 'exists') and not self.sizes(g) and self.related(f, g) for g in lits):
                    return True
        # an order that holds along a whole sequence reaches every pair of its items
        for q in neg_:
            if q.op == 'exists':
                vs, bq, _ = open_binder(q)
                es = {}
                for t in collect(bq[0], lambda t: t.op == 'at' and vs[0] in freebv(t.args[1])):
                    es.setdefault(t.args[0], set()).add(t)
                for z, e in es.items():
                    if len(e) > 1 and sum(1 for g in lits if g.op in ('pos', 'zero') and contains(g, lambda t: t.op == 'at' and t.args[0] is z)) > 1:
                        return True
        # an existence over a computed range, next to literals on the same data
        for q in pos_ + neg_:
            if q.op == 'exists':
                _, _, pq = open_binder(q)
                if not (pq[0].op == 'len' and self.free(pq[0])) and any(g.op in ('pos', 'zero', 'eq') and self.related(g, q) for g in lits):
                    return True
        # two different existential literals over the same data, one asserted and one denied
        for p in pos_:
            for q in neg_:
                if p.op == 'exists' and q.op == 'exists' and self.related(p, q) and not self.separable(p, q, facts):
                    return True
                if p.op == 'in' and q.op == 'exists' or p.op == 'exists' and q.op == 'in':
                    if self.related(p, q):
                        return True
        if not lin.vouched(facts):
            return True
        # fields of a date shifted by months are tied to the fields of the date itself
        shifted, plain = set(), set()
        for f in facts.conds:
            for t in collect(f, lambda t: t.op in ('day', 'month', 'year', 'weekday', 'dateadd', 'lastday')):
                if t.op == 'day' and contains(t, lambda z: z.op == 'dateadd'):
                    shifted.add(t)
                elif t.op in ('day', 'month'):
                    plain.add(t)
        if shifted and len(shifted | plain) > 1:
            return True
        # ordering facts between calendar fields and dates
        return self.calendar_conflict(facts)

    def sizes(self, g):
        """a literal on the lengths of uninterpreted sequences only"""
        return g.op in ('pos', 'zero') and all(x.op == 'len' and self.free(x) for x in self.top_atoms(g.args[0]))

    def separable(self, p, q, facts):
        """some element can satisfy p while none satisfies q"""
        vs, bp, pp = open_binder(p)
        _, bq, pq = open_binder(q, vs)
        base = Facts_(facts)

        def leaves(c):
            if c.op == 'ite':
                if c.args[1] is TRUE:
                    return [c.args[0]] + leaves(c.args[2])
                if c.args[2] is TRUE:
                    return [not_(c.args[0])] + leaves(c.args[1])
                return [None]
            return [c]
        lp, lq = leaves(bp[0]), leaves(bq[0])
        if None in lp or None in lq:
            return False
        for a in lp:
            if a.op == 'exists' and lq and all(b.op == 'exists' and self.separable(a, b, facts) for b in lq):
                return True
            if a.op != 'zero':
                continue
            if all(b.op == 'zero' and self.quiet(a.args[0], b.args[0], base) == NEQ and self.quiet(a.args[0], neg(b.args[0]), base) == NEQ for b in lq):
                return True
        # the same condition over a longer range
        if bp[0] is bq[0]:
            d = sub(pp[0], pq[0])
            return d.op == 'num' and d.args[0] > 0 or base.decide(pos(d)) is True
        return False

    def related(self, p, q):
        sa = {x for x in collect(p, lambda t: t.op in ('sym', 'call')) if not x.args[0] == '%'}
        sb = {x for x in collect(q, lambda t: t.op in ('sym', 'call'))}
        return bool(sa & sb)

    def calendar_conflict(self, facts):
        """order literals on dates together with literals on their calendar fields: vouched for when the order literals leave room for
        whole 400-year shifts (which preserve every calendar field but the year), or when only the year is tied"""
        field_, order = set(), set()
        cons, years = [], False
        subdate = False
        monos = set()
        tied = set()
        for f in facts.conds:
            g, ng = (f.args[0], True) if f.op == 'not' else (f, False)
            if g.op in ('pos', 'zero'):
                co, k = lin.lin_of(g.args[0])
                if g.op == 'pos':
                    cons.append(({m: -v for m, v in co.items()}, -k, '>=') if ng else (co, k, '>'))
                elif not ng:
                    cons.append((co, k, '='))
                ats = [a for m in tm._poly_items(g.args[0]) for a, e in m]
                fl = [a for a in ats if a.op in ('year', 'month', 'day', 'weekday', 'mod')]
                for a in fl:
                    field_ |= set(collect(a, lambda t: t.op == 'sym'))
                    if a.op in ('month', 'day', 'weekday', 'mod'):
                        subdate = True
                if len({x for a in fl for x in collect(a, lambda t: t.op == 'sym')}) > 1 and not ng and g.op == 'zero':
                    tied |= {x for a in fl for x in collect(a, lambda t: t.op == 'sym')}
                if not fl:
                    sy = [a for a in ats if lin.is_date_atom(a)]
                    if sy:
                        order |= {x for a in sy for x in collect(a, lambda t: t.op == 'sym')}
                monos |= set(co)
        both = sorted(field_ & order, key=lambda t: t.uid)
        if len(both) < 2:
            return False
        if tied and not subdate:
            return False        # the same year and an order: both possible
        mono = lambda x: ((x, Fraction(1)),)
        year = lambda x: ((mk('year', x), Fraction(1)),)
        base = list(cons)
        for m in monos:
            base += lin.domain(m)
        big = Fraction(400000)
        for x, y in itertools.combinations(both, 2):
            r = Fraction('365.2425')
            ok = None
            for a, b in ((x, y), (y, x)):
                extra = [({mono(a): Fraction(1), mono(b): Fraction(-1)}, -big, '>='),
                         ({mono(a): Fraction(1), mono(b): Fraction(-1), year(a): -r, year(b): r}, Fraction(367), '>='),
                         ({mono(a): Fraction(-1), mono(b): Fraction(1), year(a): r, year(b): -r}, Fraction(367), '>=')]
                if lin.feasible(base + extra):
                    ok = extra
                    break
            if ok is None:
                return True
            base += ok
        return False

    def equalities(self, facts):
        """substitution for the numeric equalities the facts imply"""
        key = ('eqs', facts.conds)
        if key in self.memo:
            return self.memo[key]
        m = {}
        for f in facts.conds:
            g, ng = (f.args[0], True) if f.op == 'not' else (f, False)
            if g.op == 'zero' and not ng or g.op == 'pos' and ng and facts.decide(zero(g.args[0])) is True:
                d = subst(g.args[0], m) if m else g.args[0]
                best = None
                for mn, cf in tm._poly_items(d).items():
                    if len(mn) == 1 and mn[0][1] == 1 and mn[0][0].op in ('sym', 'at', 'attr', 'call', 'get', 'len', 'year', 'month', 'day', 'weekday'):
                        x = mn[0][0]
                        rest = scale(sub(d, tm._from_items({mn: cf})), -1 / cf)
                        if not contains(rest, lambda t: t is x) and (best is None or x.uid > best[0].uid):
                            best = (x, rest)
                if best:
                    one = {best[0]: best[1]}
                    m = {k: subst(v, one) for k, v in m.items()}
                    m[best[0]] = best[1]
        self.memo[key] = m
        return m

    def leaf(self, a, b, facts):
        w = self.witness
        r = self.leaf_(a, b, facts)
        if r == EQ:
            return r
        m = self.equalities(facts)
        if m:
            a2, b2 = subst(a, m), subst(b, m)
            if a2 is not a or b2 is not b:
                self.witness = w
                return self.compare(a2, b2, facts)
        return r

    def leaf_(self, a, b, facts):
        if a is b and not has_unk(a):
            return EQ
        if has_unk(a) or has_unk(b):
            self.unk_reason = first_unk(a) or first_unk(b)
            # different kinds of exit are still definite
            if a.op == 'raise' and b.op not in ('raise', 'unk') and not has_unk(b) or b.op == 'raise' and a.op not in ('raise', 'unk') and not has_unk(a):
                pass
            return UNK
        if a.op == 'raise' or b.op == 'raise':
            if a.op == b.op:
                if a.args[0] == b.args[0] or b.args[0] == 'Exception' or a.args[0] == 'Exception':
                    return EQ
                return self.differ(a, b, facts, 'different exceptions')
            return self.differ(a, b, facts, 'one side raises')
        if a.op == 'any' or b.op == 'any':
            return EQ
        key = None
        num_like = lambda t: t.op in ('num', 'poly', 'exp', 'pow', 'log', 'sumc', 'prodc', 'iters', 'dateadd', 'mkdate', 'dateof', 'len', 'year', 'month', 'day', 'weekday', 'mod')
        SEQ = ('list', 'concat', 'comp', 'filt', 'flat', 'sortedk', 'slice', 'reversed', 'keys', 'setof')
        if a.op == 'tuple' and b.op in SEQ:
            a = mk('list', *a.args)
        if b.op == 'tuple' and a.op in SEQ:
            b = mk('list', *b.args)
        if a.op == 'tuple' and b.op == 'tuple':
            return self.items(a.args, b.args, facts, a, b)
        if a.op == 'arr' and b.op == 'arr':
            return self.compare(a.args[0], b.args[0], facts)
        if a.op == 'arr' and b.op in SEQ:
            return self.compare(a.args[0], b, facts)
        if b.op == 'arr' and a.op in SEQ:
            return self.compare(a, b.args[0], facts)
        if a.op in SEQ and b.op in SEQ or (a.op in SEQ and self.seqlike(b)) or (b.op in SEQ and self.seqlike(a)):
            return self.seqs_(a, b, facts)
        if a.op == b.op == 'call' and a.args[0] is b.args[0] and a.args[0].op == 'pyfn' and a.args[0].args[0] == 'scipy.optimize.root' \
                and len(a.args) == len(b.args) == 3 and a.args[2] is b.args[2] and a.args[1].op == b.args[1].op == 'lam' and a.args[1].args[0] == b.args[1].args[0]:
            if a is b:
                return EQ
            w, u = self.witness, self.unk_reason
            if self.roots(a.args[1], b.args[1], facts) == EQ:
                return EQ
            self.witness, self.unk_reason = w, u
        if a.op == b.op == 'at' and a.args[1] is b.args[1] and all(x.args[0].op == 'call' and x.args[0].args[0].op == 'pyfn' and x.args[0].args[0].args[0] == 'scipy.optimize.minimize' for x in (a, b)):
            return self.programs(a.args[0], b.args[0], facts)
        if a.op == 'rec' and b.op == 'rec' or a.op == 'inst' and b.op == 'inst':
            if a.args[0] != b.args[0]:
                return self.differ(a, b, facts, 'different classes')
            if a.op == 'inst':
                da = dict(zip([k.args[0] for k in a.args[1::2]], a.args[2::2]))
                db = dict(zip([k.args[0] for k in b.args[1::2]], b.args[2::2]))
                if set(da) != set(db):
                    self.unk_reason = 'different attribute sets'
                    return UNK
                ks = sorted(da)
                return self.items([da[k] for k in ks], [db[k] for k in ks], facts, a, b)
            return self.items(a.args[1:], b.args[1:], facts, a, b)
        if a.op == 'dict' and b.op == 'dict':
            ka, kb = a.args[0::2], b.args[0::2]
            if ka == kb:
                return self.items(a.args[1::2], b.args[1::2], facts, a, b)
            if set(ka) == set(kb):
                db = dict(zip(kb, b.args[1::2]))
                return self.items(a.args[1::2], [db[k] for k in ka], facts, a, b)
            if len(ka) == len(kb):
                return self.items(a.args, b.args, facts, a, b)
            return self.differ(a, b, facts, 'different keys') if all(k.op in ('const', 'enum', 'num') for k in ka + kb) else UNK
        if a.op == 'lam' and b.op == 'lam':
            va, ba, _ = open_binder(a)
            if a.args[0] != b.args[0]:
                return UNK
            vb, bb, _ = open_binder(b, va)
            # give parameters the type recorded on either side
            return self.compare(ba[0], bb[0], facts)
        if a.op == b.op and a.op in ('comp', 'dictcomp', 'sortedk', 'iterate'):
            return self.binder(a, b, facts)
        simple = ('const', 'enum', 'cls', 'fn', 'pyfn')
        if a.op in simple and b.op in simple:
            return self.differ(a, b, facts, 'different constants')
        for x, y in ((a, b), (b, a)):
            if x.op in ('const', 'enum') and (y.op in ('list', 'dict', 'rec', 'inst', 'tuple', 'comp', 'num', 'poly', 'concat', 'lam')):
                return self.differ(a, b, facts, 'different kinds of value')
            if x.op in ('num', 'poly') and y.op in ('list', 'dict', 'rec', 'inst', 'tuple', 'lam', 'fn', 'cls', 'pyfn'):
                return self.differ(a, b, facts, 'different kinds of value')
            if x.op in ('const', 'enum') and y.op in ('sym', 'attr', 'at', 'call', 'get') and not y.op == 'unk':
                # a constant against an unconstrained input
                if facts.decide(eq(x, y)) is True:
                    return EQ
                return self.differ(a, b, facts, 'constant against an input') if self.free(y) else UNK
        if a.op == 'fstr' or b.op == 'fstr':
            self.unk_reason = 'text'
            return EQ if a.op == b.op or 'const' in (a.op, b.op) else UNK
        struct = ('dict', 'rec', 'inst', 'lam', 'list', 'tuple', 'setof', 'clo', 'bm', 'partial', 'dset', 'dictcomp', 'setop', 'comp', 'concat', 'filt', 'flat')
        if a.op in struct or b.op in struct:
            if a.op == b.op == 'setof':
                return self.sets(a.args[0], b.args[0], facts)
            if a.op == b.op and len(a.args) == len(b.args) and a.op in ('partial', 'dset'):
                return self.items([x for x in a.args if isinstance(x, T)], [x for x in b.args if isinstance(x, T)], facts, a, b, weak=True)
            self.unk_reason = f'{a.op} against {b.op}'
            return UNK
        return self.numeric(a, b, facts)

    def programs(self, a, b, facts):
        """two minimisation problems: the same when objective and constraints are; different when over the same constraints the objectives, or over the
        same objective the constraints, differ"""
        def same(x, y):
            return len(x.args) == len(y.args) and all(any(is_zero(sub(p, q)) for q in y.args) for p in x.args)
        if len(a.args) != len(b.args) or a.args[4] is not b.args[4]:
            return self.differ(a, b, facts, 'different minimisation problems')
        if len(a.args) > 5 and a.args[5:] != b.args[5:]:
            self.unk_reason = 'minimisation problems'
            return UNK
        o = is_zero(sub(a.args[1], b.args[1]))
        c = [same(x, y) and same(y, x) for x, y in zip(a.args[2:4], b.args[2:4])]
        if o and all(c):
            return EQ
        if o + sum(c) == 2:
            return self.differ(a, b, facts, 'different minimisation problems')
        self.unk_reason = 'minimisation problems'
        return UNK

    def roots(self, a, b, facts):
        """two functions with the same zeros: equal, or equal up to sign"""
        va, ba, _ = open_binder(a)
        vb, bb, _ = open_binder(b, va)
        r = self.compare(ba[0], bb[0], facts)
        if r != EQ:
            w, u = self.witness, self.unk_reason
            n = self.negated(ba[0])
            if n is not None and self.compare(n, bb[0], facts) == EQ:
                self.witness, self.unk_reason = None, None
                return EQ
            self.witness, self.unk_reason = w, u
        return r

    def negated(self, t):
        if t.op == 'arr':
            x = self.negated(t.args[0])
            return None if x is None else mk('arr', x)
        if t.op in ('list', 'comp', 'concat', 'tuple'):
            return smap(t, lambda e: self.negated(e) or neg(e))
        if t.op == 'ite':
            x, y = self.negated(t.args[1]), self.negated(t.args[2])
            return None if x is None or y is None else ite(t.args[0], x, y)
        if t.op in ('num', 'poly', 'sym', 'call', 'at', 'attr', 'sumc', 'get'):
            return neg(t)
        return t if t.op == 'raise' else None

    def seqlike(self, t):
        if t.op not in ('sym', 'attr', 'at', 'call', 'get') or self.interp is None:
            return False
        ty = self.interp.ty(t)
        return bool(ty) and ty.startswith('seq')

    def items(self, xs, ys, facts, a, b, weak=False):
        if len(xs) != len(ys):
            return self.differ(a, b, facts, 'different number of elements')
        res = EQ
        for x, y in zip(xs, ys):
            r = self.compare(x, y, facts)
            if r == NEQ:
                if weak:
                    return UNK
                return NEQ
            if r == UNK:
                res = UNK
        return res

    def sets(self, a, b, facts):
        a, b = norm_seq(a), norm_seq(b)
        if a is b:
            return EQ
        if a.op == 'list' and b.op == 'list' and set(a.args) == set(b.args):
            return EQ
        if a.op == 'list' and b.op == 'list':
            if all(x.op in ('const', 'enum', 'num') for x in a.args + b.args):
                return self.differ(a, b, facts, 'different set members')
            left = list(b.args)
            for x in a.args:
                hit = None
                for y in left:
                    if self.quiet(x, y, facts) == EQ:
                        hit = y
                        break
                if hit is None:
                    self.unk_reason = 'set members'
                    return UNK
                left.remove(hit)
            return EQ if not left else UNK
        r = self.compare(a, b, facts)
        return EQ if r == EQ else UNK

    def quiet(self, x, y, facts):
        w, u = self.witness, self.unk_reason
        try:
            return self.compare(x, y, facts)
        finally:
            self.witness, self.unk_reason = w, u

    # ------------------------------------------------------------------ sequences
    def seqs_(self, a, b, facts):
        na, nb = norm_seq(a), norm_seq(b)
        if na is nb:
            return EQ
        if self.unsorted(na, nb, facts) or self.unsorted(nb, na, facts):
            return self.differ(a, b, facts, 'different order')
        pa, pb = self.flatparts(a), self.flatparts(b)
        res = EQ
        ia = ib = 0
        guard = 0
        while True:
            guard += 1
            if guard > 80:
                return UNK
            while pa and self.emptypart(pa[0], facts):
                pa.pop(0)
            while pb and self.emptypart(pb[0], facts):
                pb.pop(0)
            if not pa and not pb:
                return res
            if not pa or not pb:
                rest = pa or pb
                if any(p[0] == 'e' for p in rest) or any(p[0] == 's' and facts.decide(pos(p[1])) is True for p in rest):
                    return self.differ(a, b, facts, 'different lengths')
                if all(p[0] == 's' for p in rest):
                    # length of the remainder may be positive
                    p = rest[0]
                    d = facts.decide(pos(p[1]))
                    if d is None and self.free(p[1]):
                        return self.differ(a, b, facts, 'different lengths')
                self.unk_reason = 'sequence lengths'
                return UNK
            x, y = pa[0], pb[0]
            if x[0] == 'e' and y[0] == 'e':
                r = self.compare(x[1], y[1], facts)
                pa.pop(0); pb.pop(0)
            elif x[0] == 's' and y[0] == 's':
                d = sub(x[1], y[1])
                z = facts.decide(zero(d)) if d is not ZERO else True
                if z is True:
                    i = fresh('i')
                    f2 = facts.add(lt(i, x[1]))
                    if self.infeasible(f2):
                        r = EQ
                    else:
                        r = self.compare(x[2](i), y[2](i), f2)
                    pa.pop(0); pb.pop(0)
                elif d.op == 'num' or facts.decide(pos(d)) is True or facts.decide(pos(neg(d))) is True:
                    # split the longer part
                    if d.op == 'num' and d.args[0] > 0 or d.op != 'num' and facts.decide(pos(d)) is True:
                        pa[0:1] = [('s', y[1], x[2]), ('s', d, (lambda f, n: lambda i: f(add(i, n)))(x[2], y[1]))]
                    else:
                        e = neg(d)
                        pb[0:1] = [('s', x[1], y[2]), ('s', e, (lambda f, n: lambda i: f(add(i, n)))(y[2], x[1]))]
                    r = EQ
                else:
                    # lengths incomparable
                    i = fresh('i')
                    rn = self.numeric(x[1], y[1], facts)
                    if rn == NEQ and len(pa) == 1 and len(pb) == 1:
                        return self.differ(a, b, facts, 'different lengths')
                    self.unk_reason = 'sequence lengths'
                    return UNK
            elif x[0] in 'es' and y[0] in 'es':
                # peel one element of the symbolic part
                sp, ep, fl = (pa, pb, False) if x[0] == 's' else (pb, pa, True)
                s, e = sp[0], ep[0]
                d = facts.decide(pos(s[1]))
                if d is not True:
                    d2 = facts.decide(zero(s[1]))
                    if d2 is True:
                        sp.pop(0)
                        continue
                    # split on emptiness
                    f1 = facts.add(pos(s[1]))
                    f0 = facts.add(not_(pos(s[1])))
                    if not self.infeasible(f0):
                        sa, sb = self.rejoin(pa), self.rejoin(pb)
                        r0 = self.seqs_(sa, sb, f0) if not self.infeasible(f0) else EQ
                        r1 = self.seqs_(sa, sb, f1) if not self.infeasible(f1) else EQ
                        if NEQ in (r0, r1):
                            return NEQ
                        return UNK if UNK in (r0, r1) else res
                    facts = f1
                s0 = s[2](ZERO)
                sp[0] = ('s', sub(s[1], ONE), (lambda f: lambda i: f(add(i, ONE)))(s[2]))
                r = self.compare(s0, e[1], facts) if not fl else self.compare(e[1], s0, facts)
                ep.pop(0)
            else:
                if x[0] == 'o' and y[0] == 'o':
                    r = self.opaque(x[1], y[1], facts)
                    if r != EQ:
                        # what follows is no longer aligned
                        only = len(pa) == 1 and len(pb) == 1
                        return r if r == NEQ and only else self.lengths(a, b, facts)
                    pa.pop(0); pb.pop(0)
                else:
                    ra = self.rejoin(pa)
                    rb = self.rejoin(pb)
                    # an opaque part against elements: lengths can still decide
                    s_, o_ = (x, y) if y[0] == 'o' else (y, x)
                    self.unk_reason = f'sequence shape {x[0]} against {y[0]}'
                    return self.lengths(ra, rb, facts)
            if r == NEQ:
                return NEQ
            if r == UNK:
                res = UNK

    def unsorted(self, o, other, facts):
        """`o` sorts (or reverses) the sequence `other`, which can come in any order"""
        if o.op == 'sortedk':
            base, key = binder_parts(o)[2][0], open_binder(o)
        elif o.op == 'reversed':
            base, key = o.args[0], None
        else:
            return False
        if base is not norm_seq(other):
            return False
        said = lambda s: any(contains(c, lambda t: t is s) for c in facts.conds)
        if base.op == 'sym':
            return not said(base)
        if base.op == 'concat' and key is not None:
            syms = [collect(p, lambda t: t.op == 'sym') for p in base.args]
            for p, sy in zip(base.args, syms):
                if p.op == 'list' and len(p.args) == 1:
                    k = subst(key[1][0], {key[0][0]: p.args[0]})
                    rest = {z for q, zs in zip(base.args, syms) if q is not p for z in zs}
                    if self.free(k) and not any(said(z) for z in sy) and not (set(sy) & rest) and len(base.args) > 1 and not any(said(z) for z in rest):
                        return True
        return False

    def lengths(self, a, b, facts):
        """sequences of certainly different length differ"""
        u = self.unk_reason or 'sequence shape'
        d = sub(slen(a), slen(b))
        if d.op == 'num' and not is_zero(d) or d.op != 'num' and (facts.decide(pos(d)) is True or facts.decide(pos(neg(d))) is True):
            return self.differ(a, b, facts, 'different lengths')
        self.unk_reason = u
        return UNK

    def rejoin(self, parts):
        out = []
        for p in parts:
            if p[0] == 'e':
                out.append(mk('list', p[1]))
            elif p[0] == 's':
                out.append(comp(p[1], p[2]))
            else:
                out.append(p[1])
        return concat(*out)

    def emptypart(self, p, facts):
        if p[0] == 's':
            if p[1].op == 'num':
                return p[1].args[0] <= 0
            return facts.decide(pos(p[1])) is False
        return False

    def flatparts(self, s):
        s = norm_seq(s)
        if s.op == 'list':
            return [('e', x) for x in s.args]
        if s.op == 'concat':
            return [q for p in s.args for q in self.flatparts(p)]
        if s.op == 'comp':
            n = binder_parts(s)[2][0]
            if n.op == 'num':
                return [('e', at(s, num(j))) for j in range(int(n.args[0]))] if n.args[0] <= 64 else [('s', n, lambda i: at(s, i))]
            return [('s', n, lambda i: at(s, i))]
        if s.op in ('filt', 'flat', 'sortedk', 'setof', 'ite', 'slice', 'reversed'):
            return [('o', s)]
        return [('s', slen(s), lambda i: at(s, i))]

    def opaque(self, a, b, facts):
        if a is b:
            return EQ
        if a.op != b.op:
            self.unk_reason = f'{a.op} against {b.op}'
            return UNK
        if a.op == 'setof':
            return self.sets(a.args[0], b.args[0], facts)
        if a.op in BINDERS:
            return self.binder(a, b, facts)
        if a.op in ('slice', 'reversed'):
            r = self.items(a.args, b.args, facts, a, b)
            return r
        return UNK

    def binder(self, a, b, facts):
        if a.args[0] != b.args[0] or a.args[2] != b.args[2]:
            self.unk_reason = a.op + ' shape'
            return UNK
        va, ba, pa = open_binder(a)
        vb, bb, pb = open_binder(b, va)
        if len(pa) != len(pb):
            return UNK
        rp = EQ
        f2 = facts
        if a.op in ('comp', 'filt', 'flat', 'sumc', 'prodc', 'exists', 'dictcomp'):
            f2 = facts.add(lt(va[0], pa[0]))
        if a.op == 'iterate':
            f2 = facts.add(lt(va[-1], pa[-2]))
        for x, y in zip(pa, pb):
            r = self.compare(x, y, facts)
            if r == NEQ and a.op in ('sortedk', 'extk') and x is not pa[0]:
                return self.differ(a, b, facts, 'different order')
            if r != EQ:
                rp = r if r == NEQ or rp == EQ else rp
        if a.op == 'filt':
            rg = self.compare(ba[0], bb[0], f2)
            f3 = f2.add(ba[0])
            re_ = EQ if self.infeasible(f3) else self.compare(ba[1], bb[1], f3)
            return self.meet(rp, rg, re_)
        if a.op == 'iterate':
            idx_a, idx_b = as_int(pa[-1]), as_int(pb[-1])
            rb = EQ
            for x, y in zip(ba, bb):
                r = self.compare(x, y, f2)
                if r != EQ:
                    rb = r if r == NEQ or rb == EQ else rb
            if idx_a != idx_b or rp != EQ:
                if rb == EQ and rp == NEQ and idx_a == idx_b:
                    return NEQ
                # order of the components may differ
                return self.iter_perm(a, b, facts)
            if rb == NEQ and len(ba) > 1:
                r2 = self.iter_perm(a, b, facts)
                if r2 == EQ:
                    return EQ
            return rb
        if a.op == 'sortedk':
            # the key only matters up to order
            rk = self.compare(ba[0], bb[0], facts)
            if rk == NEQ:
                return self.meet(rp, self.order(ba[0], bb[0], va[0], facts))
            return self.meet(rp, rk)
        rs = [self.compare(x, y, f2) for x, y in zip(ba, bb)]
        return self.meet(rp, *rs)

    def order(self, k1, k2, x, facts):
        """keys inducing the same order?"""
        d = sub(k1, k2) if k1.op not in ('tuple', 'const') and k2.op not in ('tuple', 'const') else None
        if d is not None and not contains(d, lambda t: t is x):
            return EQ
        return NEQ

    def iter_perm(self, a, b, facts):
        va, ba, pa = open_binder(a)
        n = len(ba)
        if n > 3:
            return UNK
        ia, ib = as_int(pa[-1]), None
        _, _, pb = binder_parts(b)
        ib = as_int(pb[-1])
        if self.quiet(pa[-2], pb[-2], facts) != EQ:
            return UNK
        for perm in itertools.permutations(range(n)):
            if perm[ib] != ia:
                continue
            # component j of b corresponds to component perm[j] of a
            vb = [va[perm[j]] for j in range(n)] + [va[-1]]
            _, bb, pbb = open_binder(b, vb)
            f2 = facts.add(lt(va[-1], pa[-2]))
            ok = all(self.quiet(pa[perm[j]], pbb[j], facts) == EQ and self.quiet(ba[perm[j]], bb[j], f2) == EQ for j in range(n))
            if ok:
                return EQ
        return UNK

    def meet(self, *rs):
        if NEQ in rs:
            return NEQ
        return UNK if UNK in rs else EQ

    # ------------------------------------------------------------------ numbers and uninterpreted values
    def free(self, t):
        """value can be chosen freely by the environment (uninterpreted structure only)"""
        if t.op in ('sym', 'enum', 'const', 'num', 'cls', 'fn', 'pyfn'):
            return True
        if t.op == 'poly':
            return all(self.free(a) for m in tm._poly_items(t) for a, e in m)
        if t.op in ('attr',):
            return self.free(t.args[0])
        if t.op in ('at', 'get', 'call', 'exp', 'log', 'pow', 'len', 'tuple', 'rec', 'list', 'slicev', 'mkdatetime'):
            return all(self.free(x) for x in t.args if isinstance(x, T))
        return False

    def numeric(self, a, b, facts):
        if a is b:
            return EQ
        odd = ('const', 'enum', 'cls', 'fn', 'pyfn')
        if a.op in odd or b.op in odd:
            self.unk_reason = f'{a.op} against {b.op}'
            return UNK
        d = sub(a, b)
        for _ in range(6):
            if is_zero(d):
                return EQ
            if d.op == 'unk':
                self.unk_reason = d.args[0]
                return UNK
            if d.op != 'num' and facts.decide(zero(d)) is True:
                return EQ
            d2 = self.merge_atoms(d, facts)
            d2 = self.merge_sums(d2, facts)
            if d2 is d:
                break
            m = self.equalities(facts)
            d = subst(d2, m) if m else d2
            if d.op != 'num' and not has_unk(d) and self.pick(d, set()) is not None and not self.pick(sub(a, b), set()):
                return self.compare(d, ZERO, facts)
        if is_zero(d):
            return EQ
        if d.op == 'num':
            return self.differ(a, b, facts, 'difference ' + show(d))
        d = self.radicals(d, facts)
        if d is None:
            self.unk_reason = 'roots of related values'
            return UNK
        if is_zero(d):
            return EQ
        ats = self.top_atoms(d)
        hard = [x for x in ats if not self.free(x)]
        if not hard:
            return self.differ(a, b, facts, 'difference ' + show(d, 5))
        r = self.instants(d, hard, facts)
        if r is not None:
            return r
        r = self.weekdays(a, b, d, hard, facts)
        if r is None:
            r = self.years(a, b, d, hard, facts)
        if r is not None:
            return r
        if len(hard) == 1:
            if self.generic(hard[0], facts) or self.detached(d, facts):
                return self.differ(a, b, facts, 'difference ' + show(d, 5))
            self.unk_reason = 'difference involves ' + hard[0].op
            return UNK
        # trip counts that are bounded apart
        f2 = facts
        for x in hard:
            if x.op == 'iters':
                lo, hi = self.trip_bounds(x, facts)
                f2 = f2.add(not_(lt(x, num(lo))))
                if hi is not None:
                    f2 = f2.add(not_(lt(num(hi), x)))
        if f2 is not facts and f2.decide(zero(d)) is False:
            return self.differ(a, b, facts, 'difference ' + show(d, 5))
        # pairs of the same operator whose arguments certainly differ
        left = list(hard)
        while left:
            x = left.pop(0)
            hit = None
            for y in left:
                if y.op == x.op and self.certain(x, y, facts):
                    hit = y
                    break
            if hit is None:
                break
            left.remove(hit)
        else:
            return self.differ(a, b, facts, 'difference ' + show(d, 5))
        if self.detached(d, facts):
            return self.differ(a, b, facts, 'difference ' + show(d, 5))
        # every hard atom is generic and occurs on one side only with its own uninterpreted inputs
        if all(x.op in ('sumc', 'call', 'at', 'attr', 'exp', 'pow', 'get', 'dateadd') and self.generic(x, facts) for x in hard) and self.independent(hard):
            return self.differ(a, b, facts, 'difference ' + show(d, 5))
        self.unk_reason = 'difference involves ' + ', '.join(sorted({x.op for x in hard}))
        return UNK

    def instants(self, d, hard, facts):
        """the same question with every input instant taken as a day and a part of a day"""
        xs = collect(d, lambda t: t.op == 'dateof' and t.args[0].op == 'sym')
        if not xs:
            return None
        m1, m2, new = {}, {}, []
        for t in xs:
            x = t.args[0]
            day, part = mk('sym', '%day of ' + str(x.args[0]), 'date'), mk('sym', '%time of ' + str(x.args[0]), 'num')
            m1[t] = day
            m2[x] = add(day, part)
            new += [not_(lt(part, ZERO)), lt(part, ONE)]
        f = lin.Facts()
        for c in facts.conds:
            f = f.add(subst(subst(c, m1), m2))
        for c in new:
            f = f.add(c)
        if FALSE in f.conds or lin.infeasible(f):
            return EQ
        return self.numeric(subst(subst(d, m1), m2), ZERO, f)

    def weekdays(self, a, b, d, hard, facts):
        """a difference that depends on an input date by its weekday only, taken day by day"""
        if not any(x.op in ('mod', 'int', 'floor', 'ceil') for x in hard):
            return None
        ws = collect(d, lambda t: t.op == 'weekday')
        if len(ws) != 1:
            return None
        w = next(iter(ws))
        x = w.args[0]
        if x.op == 'mkdate' and x.args[0].op == 'sym' and x.args[1].op == x.args[2].op == 'num':
            x = x.args[0]           # one calendar day falls on every weekday over the years
        elif not x.op == 'sym':
            return None
        mark = mk('sym', '%weekday', 'int')
        if contains(subst(d, {w: mark}), lambda t: t is x):
            return None
        bound = [c for c in facts.conds if contains(c, lambda t: t is x)]
        if any(contains(subst(c, {w: mark}), lambda t: t is x) for c in bound):
            return None
        for v in range(7):
            f = lin.Facts()
            for c in facts.conds:
                f = f.add(subst(c, {w: num(v)}))
            if FALSE in f.conds or lin.infeasible(f):
                continue
            q = subst(d, {w: num(v)})
            if not is_zero(q):
                if q.op == 'num':
                    return self.differ(a, b, facts, f'difference {show(q)} on weekday {v}')
                return None
        return EQ

    def years(self, a, b, d, hard, facts):
        """a difference made of fixed calendar days in the years of input dates: day counts from the first of January, leap years taken apart"""
        if any(x.op not in ('mkdate', 'year') for x in hard) or not any(x.op == 'mkdate' for x in hard):
            return None
        mks = collect(d, lambda t: t.op == 'mkdate')
        years = {}
        for t in mks:
            y, m, dd = t.args[:3]
            if len(t.args) > 3 or m.op != 'num' or dd.op != 'num':
                return None
            base = [z for z in collect(y, lambda z: z.op == 'year' or z.op == 'sym') if z is y or tm.sub(y, z).op == 'num']
            base = [z for z in base if z.op == 'sym' or z.args[0].op == 'sym']
            if len(base) != 1:
                return None
            c = sub(y, base[0])
            if c.op != 'num' or c.args[0] not in (-2, -1, 0, 1, 2):
                return None
            years.setdefault(base[0], []).append((t, int(c.args[0]), int(m.args[0]), int(dd.args[0])))
        if len(years) > 2:
            return None
        for c in facts.conds:       # pinned dates
            if c.op == 'zero' and not all(x.op in ('year', 'num') or x in years for x in self.top_atoms(c.args[0])):
                return None
        CUM = (0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)

        def day(off, m, dd, leap):
            """day number counted from the first of January of the middle year; leap: which of the years around it are"""
            n = CUM[m] + dd - 1
            if m > 2 and off in leap or m == 2 and dd == 29 and off not in leap:
                n += 1
            for y in range(off, 0):
                n -= 365 + (y in leap)
            for y in range(0, off):
                n += 365 + (y in leap)
            return n
        CASES = [frozenset(z) for z in ((0,), (1,), (-1,), (-2, 2), (), (-2,), (2,))]
        keys = list(years)
        sure = True
        nz = None
        for leaps in itertools.product(CASES, repeat=len(keys)):
            m = {}
            for k, (y, lp) in enumerate(zip(keys, leaps)):
                first = mk('sym', f'%jan1.{k}', 'int')
                for t, off, mo, dd in years[y]:
                    m[t] = add(first, num(day(off, mo, dd, lp)))
                if y.op == 'year':
                    m[y] = mk('sym', f'%year.{k}', 'int')
            q = subst(d, m)
            m2 = {}
            for k, y in enumerate(keys):
                if y.op == 'year':
                    m2[y.args[0]] = add(mk('sym', f'%jan1.{k}', 'int'), mk('sym', f'%day.{k}', 'int'))
            q = subst(q, m2)
            if q.op == 'unk' or contains(q, lambda t: t.op in ('mkdate', 'year')):
                return None
            if is_zero(q):
                continue
            if not all(self.free(x) for x in self.top_atoms(q)):
                sure = False
                continue
            nz = (q, leaps)
            break
        if nz is not None:
            return self.differ(a, b, facts, f'difference {show(nz[0], 5)} counted in days of the year')
        return EQ if sure else None

    def radicals(self, d, facts):
        """d with positive factors taken out of square roots and equal radicands identified; None when roots left over may be related"""
        def rooted(t):
            return {(a, e) for m in tm._poly_items(t) for a, e in m if e.denominator != 1 and a.op == 'poly'}
        rs = rooted(d)
        if not rs:
            return d
        m = {}
        for a, e in rs:
            items, out = dict(tm._poly_items(a)), ONE
            for x in {x for mo in items for x, _ in mo}:
                low = min(dict(mo).get(x, Fraction(0)) for mo in items)
                if low and (x.op == 'exp' or facts.decide(tm.pos(x)) is True):
                    p = tm._from_items({((x, low),): Fraction(1)})
                    out = mul(out, p)
                    items = dict(tm._poly_items(mul(tm._from_items(items), tm._from_items({((x, -low),): Fraction(1)}))))
            r = tm._from_items(items)
            c = abs(tm._lead_coef(r)) if r.op == 'poly' else Fraction(1)
            m[(a, e)] = (out, tm.scale(r, 1 / c), c)
        keep = []
        for k, (out, r, c) in m.items():
            for q in keep:
                if r is q or is_zero(sub(r, q)):
                    r = q
                    break
            else:
                keep.append(r)
            m[k] = (out, r, c)
        total = ZERO
        for mo, co in tm._poly_items(d).items():
            part = tm.num(co)
            for a, e in mo:
                if (a, e) in m:
                    out, r, c = m[(a, e)]
                    f = tm._from_items({((r, e),): Fraction(1)}) if r.op == 'poly' else tm._powc(r, e)
                    part = mul(part, tm._powc(tm.num(c), e), *[tm._from_items({((x, y * e),): Fraction(1)}) for o in tm._poly_items(out) for x, y in o], f)
                else:
                    part = mul(part, tm._from_items({((a, e),): Fraction(1)}))
            total = add(total, part)
        if is_zero(total):
            return total
        # what is left: p sqrt(x) + q, or p sqrt(x) + q sqrt(y)
        left = {}
        for mo, co in tm._poly_items(total).items():
            key = tuple((a, e) for a, e in mo if e.denominator != 1 and a.op == 'poly')
            rest = tuple((a, e) for a, e in mo if (a, e) not in key)
            left[key] = add(left.get(key, ZERO), tm._from_items({rest: co}))
        left = {k: v for k, v in left.items() if not is_zero(v)}
        if not left:
            return ZERO
        if len(left) > 2 or any(len(k) > 1 or k and k[0][1].denominator != 2 for k in left):
            return None
        if len(left) == 2:
            sq = [mul(v, v, *[tm._powc(a, 2 * e) for a, e in k]) for k, v in left.items()]
            if is_zero(sub(*sq)):
                return None
        return total

    def trip_bounds(self, x, facts):
        """bounds on the first iteration number at which the loop condition fails"""
        key = ('trips', x)
        if key in self.memo:
            return self.memo[key]
        vs, b, _ = open_binder(x)
        lo, hi, sure = 0, None, True
        for q in range(400):
            d = facts.decide(self.resolve(subst(b[0], {vs[0]: num(q)}), facts))
            if d is False:
                hi = q
                break
            if d is not True:
                sure = False
                if q > lo + 8:
                    break
            elif sure:
                lo = q + 1
        self.memo[key] = (lo, hi)
        return lo, hi

    def detached(self, d, facts):
        """some atom with an uninterpreted input of its own occurs in d with a coefficient that is a monomial of generic values"""
        items = list(tm._poly_items(d).items())
        atoms = {a for m, c in items for a, e in m}
        if any(a.op in ('raise', 'unk') or not (self.free(a) or self.generic(a, facts)) for a in atoms):
            return False
        heads = {a: set(collect(a, lambda t: t.op in ('call', 'attr', 'sym') and not (t.op == 'sym' and t.args[0].startswith('%')))) for a in atoms}
        for x in atoms:
            rest = set().union(*[heads[y] for y in atoms if y is not x])
            if x.op == 'poly' or not (heads[x] - rest):
                continue
            powers = {}
            for m, c in items:
                e = dict(m).get(x, 0)
                powers.setdefault(e, []).append(m)
            if any(e != 0 and len(ms) == 1 for e, ms in powers.items()):
                return True
        return False

    def independent(self, hard):
        """hard atoms built on pairwise different uninterpreted heads"""
        heads = []
        for x in hard:
            h = frozenset(collect(x, lambda t: t.op in ('call', 'attr', 'sym') and not (t.op == 'sym' and t.args[0].startswith('%'))))
            heads.append(h)
        for p, q in itertools.combinations(range(len(hard)), 2):
            if not (heads[p] - heads[q]) or not (heads[q] - heads[p]):
                return False
        return True

    def top_atoms(self, d):
        out = []
        for m in tm._poly_items(d):
            for a, e in m:
                if a.op == 'poly':
                    out += [x for x in self.top_atoms(a) if x not in out]
                elif a.op in ('exp', 'log'):
                    out += [x for x in self.top_atoms(a.args[0]) if x not in out]
                elif a.op == 'pow':
                    for z in a.args:
                        out += [x for x in self.top_atoms(z) if x not in out]
                elif a not in out:
                    out.append(a)
        return out

    def generic(self, x, facts):
        """an interpreted atom that takes many values over the inputs"""
        if x.op in ('at', 'attr', 'call', 'get', 'len'):
            return all(self.free(y) or self.generic(y, facts) for y in x.args if isinstance(y, T) and y.op != 'poly') and \
                all(self.free(z) or self.generic(z, facts) for y in x.args if isinstance(y, T) and y.op == 'poly' for z in self.top_atoms(y))
        if x.op in ('dateadd', 'mkdate', 'weekday', 'year', 'month', 'day', 'dateof', 'hour', 'minute', 'second', 'lastday'):
            return all(self.free(y) or y.op == 'poly' and all(self.free(z) or self.generic(z, facts) for z in self.top_atoms(y)) or self.generic(y, facts)
                       for y in x.args if isinstance(y, T))
        if x.op == 'mod':
            return self.free(x.args[0]) or self.generic(x.args[0], facts)
        if x.op == 'sumc':
            vs, b, p = open_binder(x)
            return self.free(p[0]) and all(self.free(z) or self.generic(z, facts) for z in self.top_atoms(b[1])) and \
                facts.decide(pos(p[0])) is not False
        if x.op in ('int', 'floor', 'ceil'):
            return not lin.is_int_term(x.args[0]) and all(self.free(z) for z in self.top_atoms(x.args[0])) and \
                any(c.denominator != 1 or not all(lin.is_int_atom(a) for a, e in m) for m, c in tm._poly_items(x.args[0]).items())
        if x.op in ('iters', 'first'):
            vs, b, p = open_binder(x)
            return contains(b[0], lambda t: t.op == 'call' and contains(t, lambda z: z is vs[0]))
        if x.op == 'prodc':
            vs, b, p = open_binder(x)
            return self.free(p[0]) and all(self.free(z) for z in self.top_atoms(b[0]))
        if x.op in ('minseq', 'maxseq'):
            return self.free(x.args[0])
        if x.op == 'iterate':
            vs, b, p = open_binder(x)
            return self.free(p[-2]) and all(self.free(y) for y in p[:-2]) and \
                all(self.free(z) or self.generic(z, facts) for y in b for z in (self.top_atoms(y) if y.op == 'poly' else [y]))
        if x.op == 'poly':
            return all(self.free(z) or self.generic(z, facts) for z in self.top_atoms(x))
        if x.op == 'ite':
            return all(y.op != 'num' and (self.free(y) or self.generic(y, facts)) for y in x.args[1:])
        if x.op in ('exp', 'log', 'pow'):
            return all(self.free(y) or self.generic(y, facts) for y in x.args if isinstance(y, T))
        if x.op == 'comp':
            vs, b, p = open_binder(x)
            return (self.free(p[0]) or self.generic(p[0], facts)) and (self.free(b[0]) or self.generic(b[0], facts)) and contains(b[0], lambda t: t is vs[0])
        if x.op == 'sortedk':
            vs, b, p = open_binder(x)
            return self.free(p[0]) or self.generic(p[0], facts)
        if x.op == 'uniq':
            return x.args[0].op == 'comp' and self.generic(x.args[0], facts)
        return False

    def certain(self, x, y, facts):
        """same operator, arguments that certainly differ for some input, and an operator that separates them"""
        if x.op in BINDERS:
            if x.op == 'iters':
                vs, bx, _ = open_binder(x)
                _, by, _ = open_binder(y, vs)
                f = facts
                for q in range(3):
                    c1, c2 = subst(bx[0], {vs[0]: num(q)}), subst(by[0], {vs[0]: num(q)})
                    if self.quiet(self.boolform(c1), self.boolform(c2), f) == NEQ:
                        return True
                    f = f.add(c1).add(c2)
                    if self.infeasible(f):
                        break
            if x.op in ('iters', 'first', 'sumc', 'prodc', 'iterate'):
                w, u = self.witness, self.unk_reason
                r = self.binder(x, y, facts)
                self.witness, self.unk_reason = w, u
                return r == NEQ and self.generic(x, facts) and self.generic(y, facts)
            return False
        if len(x.args) != len(y.args):
            return False
        INJ = ('dateadd', 'weekday', 'year', 'month', 'day', 'mod', 'call', 'at', 'attr', 'get', 'mkdate', 'lastday', 'minseq', 'maxseq', 'len', 'int', 'bisect_r', 'bisect_l')
        if x.op not in INJ:
            return False
        diff = False
        for p, q in zip(x.args, y.args):
            if not isinstance(p, T):
                if p != q:
                    return x.op in ('attr',)
                continue
            r = self.quiet(p, q, facts)
            if r == UNK:
                return False
            if r == NEQ:
                diff = True
        if x.op == 'mod' and diff:
            dd = sub(x.args[0], y.args[0])
            if dd.op == 'num' and x.args[1].op == 'num' and dd.args[0] % x.args[1].args[0] == 0:
                return False
        return diff

    def merge_atoms(self, d, facts):
        """congruence: replace an atom by an equal one of the same operator"""
        ats = self.all_atoms(d)
        hard = [x for x in ats if x.args and x.op not in ('sym', 'num', 'const', 'enum', 'bv')]
        for x, y in itertools.combinations(hard, 2):
            if x.op != y.op or x is y:
                continue
            if x.op in BINDERS:
                if x.op == 'sumc':
                    continue
                if self.quiet_binder(x, y, facts) == EQ:
                    return subst(d, {y: x})
                continue
            if len(x.args) != len(y.args):
                continue
            if contains(x, lambda t: t is y) or contains(y, lambda t: t is x):
                continue
            ok = True
            for p, q in zip(x.args, y.args):
                if isinstance(p, T) and isinstance(q, T):
                    if p is not q and self.quiet(p, q, facts) != EQ:
                        ok = False
                        break
                elif p != q:
                    ok = False
                    break
            if ok:
                return subst(d, {y: x})
        return d

    def quiet_binder(self, x, y, facts):
        w, u = self.witness, self.unk_reason
        try:
            return self.binder(x, y, facts)
        finally:
            self.witness, self.unk_reason = w, u

    def all_atoms(self, d):
        out = []
        for m in tm._poly_items(d):
            for a, e in m:
                if a not in out:
                    out.append(a)
                for z in (a.args if a.op in ('exp', 'log', 'pow', 'poly') else ()):
                    if isinstance(z, T):
                        zs = self.all_atoms(a) if a.op == 'poly' else self.all_atoms(z)
                        out += [x for x in zs if x not in out]
                        if a.op == 'poly':
                            break
        return out

    # sums with a common range are combined and compared body against body
    def merge_sums(self, d, facts):
        r = self.merge_sums_(d, facts, False)
        if r is d:
            r = self.merge_sums_(d, facts, True)
        return r

    def merge_sums_(self, d, facts, joint):
        """sums with the same factor (joint: any factor, taken inside) combined into one"""
        its = tm._poly_items(d)
        groups = {}
        others = {}
        for m, c in its.items():
            ss = [(a, e) for a, e in m if a.op == 'sumc' and e == 1]
            if len(ss) == 1 and not any(a.op == 'sumc' for a, e in m if (a, e) not in ss):
                rest = tuple((a, e) for a, e in m if a is not ss[0][0])
                groups.setdefault(() if joint else rest, []).append((c, ss[0][0]) if not joint else (c, ss[0][0], tm._from_items({rest: Fraction(1)})))
            else:
                others[m] = c
        changed = False
        tot = tm._from_items(others)
        if joint and len(set(x[2] for x in groups.get((), []))) < 2:
            return d
        for rest, lst in groups.items():
            inner = {s: o for c, s, o in lst} if joint else {}
            if joint:
                if len(inner) < len(lst):
                    return d
                lst = [x[:2] for x in lst]
            outer = tm._from_items({rest: Fraction(1)})
            if len(lst) < 2:
                for c, s in lst:
                    tot = add(tot, mul(num(c), outer, s))
                continue
            # common range: the shortest
            infos = []
            for c, s in lst:
                vs, b, p = open_binder(s)
                infos.append([c, p[0], vs[0], b[0], mul(inner[s], b[1]) if joint else b[1], s])
            base = infos[0][1]
            ok = True
            for q in infos[1:]:
                dd = sub(q[1], base)
                if dd is ZERO or facts.decide(zero(dd)) is True:
                    continue
                if dd.op != 'num':
                    ok = False
                    break
                if dd.args[0] < 0:
                    base = q[1]
            if joint and not ok:
                return d
            if not ok:
                for c, s in lst:
                    tot = add(tot, mul(num(c), outer, s))
                continue
            done = False
            for mode in ('last', 'first'):
                i = fresh('i')
                body = ZERO
                extra = ZERO
                bad = False
                for c, n, v, g, e, s in infos:
                    dd = sub(n, base)
                    k = int(dd.args[0]) if dd.op == 'num' else 0
                    if k > 4:
                        bad = True
                        break
                    term = ite(g, e, ZERO)
                    if mode == 'last':
                        for q in range(k):
                            extra = add(extra, scale(subst(term, {v: add(base, num(q))}), c))
                        body = add(body, scale(subst(term, {v: i}), c))
                    else:
                        for q in range(k):
                            extra = add(extra, scale(subst(term, {v: num(q)}), c))
                        body = add(body, scale(subst(term, {v: add(i, num(k))}), c))
                if bad:
                    continue
                f2 = facts.add(lt(i, base))
                if self.infeasible(f2) or self.quiet(body, ZERO, f2) == EQ:
                    tot = add(tot, mul(outer, extra))
                    changed = True
                    done = True
                    break
                if mode == 'last' and all(sub(q[1], base) is ZERO for q in infos):
                    break
            if joint and not done:
                return d
            if not done:
                # telescoping: sum f(i+1) - sum f(i)
                tele = self.telescope(infos, base, facts)
                if tele is not None:
                    tot = add(tot, mul(outer, tele))
                    changed = True
                else:
                    for c, s in lst:
                        tot = add(tot, mul(num(c), outer, s))
        return tot if changed else d

    def telescope(self, infos, base, facts):
        if len(infos) != 2 or infos[0][0] + infos[1][0] != 0:
            return None
        (c1, n1, v1, g1, e1, s1), (c2, n2, v2, g2, e2, s2) = infos
        if g1 is not TRUE or g2 is not TRUE or sub(n1, n2) is not ZERO:
            return None
        i = fresh('i')
        x, y = subst(e1, {v1: i}), subst(e2, {v2: i})
        if self.quiet(x, subst(y, {i: add(i, ONE)}), facts) == EQ:
            return scale(sub(subst(y, {i: n1}), subst(y, {i: ZERO})), c1)
        if self.quiet(y, subst(x, {i: add(i, ONE)}), facts) == EQ:
            return scale(sub(subst(x, {i: n1}), subst(x, {i: ZERO})), c2)
        return None


def pick_at(lst, i):
    """element i of a literal list, pushed into records and tuples"""
    xs = lst.args
    if all(x is xs[0] for x in xs):
        return xs[0]
    if xs[0].op in ('rec', 'tuple') and all(x.op == xs[0].op and len(x.args) == len(xs[0].args) for x in xs):
        if xs[0].op == 'tuple':
            return mk('tuple', *[pick_at(mk('list', *col), i) for col in zip(*[x.args for x in xs])])
        if all(x.args[0] == xs[0].args[0] for x in xs):
            return mk('rec', xs[0].args[0], *[pick_at(mk('list', *col), i) for col in zip(*[x.args[1:] for x in xs])])
    return mk('at', lst, i)


def argsorted(t, memo):
    """sorted(map f X) becomes the map of f over the sorting permutation of X"""
    if t.uid in memo:
        return memo[t.uid]
    r = t
    if t.op in BINDERS:
        if contains(t, lambda z: z.op == 'sortedk'):
            vs, b, p = open_binder(t)
            nb, np_ = [argsorted(x, memo) for x in b], [argsorted(x, memo) if isinstance(x, T) else x for x in p]
            if any(x is not y for x, y in zip(nb + np_, b + list(p))):
                r = tm.close(t.op, vs, nb, np_)
    else:
        na = tuple(argsorted(x, memo) if isinstance(x, T) else x for x in t.args)
        if any(x is not y for x, y in zip(na, t.args)):
            r = tm.rebuild(t, na)
    if r.op == 'sortedk':
        vs, b, p = open_binder(r)
        s = p[0]
        if len(p) == 1 and (s.op == 'comp' or s.op == 'list' and len(s.args) > 2) and not (s.op == 'comp' and binder_parts(s)[1][0] is binder_parts(s)[0][0]):
            n = slen(s)
            el = (lambda i: at(s, i)) if s.op == 'comp' else (lambda i: pick_at(s, i))
            i = fresh('i')
            ident = tm.bind('comp', [i], [i], n)
            if s is not ident:
                x = fresh('x')
                perm = tm.bind('sortedk', [x], [subst(b[0], {vs[0]: el(x)})], ident)
                r = comp(n, lambda j: el(mk('at', perm, j)))
    memo[t.uid] = r
    return r


def rewrite(t, f, memo):
    """f applied to every subterm, bottom up"""
    if t.uid in memo:
        return memo[t.uid]
    r = t
    if t.op in BINDERS:
        vs, b, p = open_binder(t)
        nb, np_ = [rewrite(x, f, memo) for x in b], [rewrite(x, f, memo) if isinstance(x, T) else x for x in p]
        if any(x is not y for x, y in zip(nb + np_, b + list(p))):
            r = tm.close(t.op, vs, nb, np_)
    else:
        na = tuple(rewrite(x, f, memo) if isinstance(x, T) else x for x in t.args)
        if any(x is not y for x, y in zip(na, t.args)):
            r = tm.rebuild(t, na)
    r = f(r)
    memo[t.uid] = r
    return r


def part_element(t):
    """an element of a concatenation, by cases on the part it lies in"""
    if t.op != 'at' or t.args[0].op != 'concat':
        return t
    i, parts = t.args[1], t.args[0].args
    offs, off = [], ZERO
    for p in parts:
        offs.append(off)
        off = add(off, slen(p))
    r = None
    for p, o in list(zip(parts, offs))[::-1]:
        x = at(p, sub(i, o)) if not (p.op == 'list' and len(p.args) == 1) else p.args[0]
        r = x if r is None else ite(lt(i, add(o, slen(p))), x, r)
    return r


def decide(a, b, facts, interp=None, leaves=3000, narrow=True):
    r = decide_(a, b, facts, interp, leaves)
    if r[0] == UNK and (contains(a, lambda t: t.op == 'at' and t.args[0].op == 'concat') or contains(b, lambda t: t.op == 'at' and t.args[0].op == 'concat')):
        memo = {}
        r2 = decide_(rewrite(a, part_element, memo), rewrite(b, part_element, memo), facts, interp, leaves)
        if r2[0] != UNK:
            return r2
    if r[0] == UNK and (contains(a, lambda t: t.op == 'sortedk') and contains(b, lambda t: t.op == 'sortedk')):
        memo = {}
        a2, b2 = argsorted(a, memo), argsorted(b, memo)
        if a2 is not a or b2 is not b:
            r2 = decide_(a2, b2, facts, interp, leaves)
            if r2[0] != UNK:
                return r2
    if r[0] == UNK and narrow and not has_unk(a) and not has_unk(b):
        q = narrowed(a, b, facts)
        if q is not None:
            r2 = decide_(*q, interp, min(leaves, 500))
            if r2[0] == NEQ:
                return r2
    return r


def narrowed(a, b, facts):
    """the same question for inputs whose summed sequences have one element: a smaller set of inputs on which a difference may be definite"""
    rng = []
    for t in (a, b):
        for s in collect(t, lambda t: t.op == 'sumc' and not freebv(t)):
            p = binder_parts(s)[2][0]
            if p.op == 'len' and p.args[0].op == 'sym' and p not in rng:
                rng.append(p)
    if not rng:
        return None
    m = {p: num(1) for p in rng}
    f = lin.Facts()
    for c in facts.conds:
        c2 = subst(c, m)
        if c2 is FALSE or f.decide(c2) is False:
            return None
        f = f.add(c2)
    if lin.infeasible(f):
        return None
    return subst(a, m), subst(b, m), f


def decide_(a, b, facts, interp=None, leaves=3000):
    e = Equiv(interp, leaves)
    try:
        r = e.compare(a, b, facts)
    except Budget:
        return UNK, None, 'case budget'
    except RecursionError:
        return UNK, None, 'recursion'
    return r, e.witness, e.unk_reason
