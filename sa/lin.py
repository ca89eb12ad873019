"""Facts known on a path and a small decision procedure over them: syntactic implication, enumeration exclusivity and
linear sign reasoning (Fourier-Motzkin elimination with integer tightening).  Used to prune contradictory gates."""
from fractions import Fraction
from math import gcd
from terms import *
import terms as tm

INT_OPS = {'year', 'month', 'day', 'weekday', 'len', 'iters', 'mod', 'hour', 'minute', 'second', 'int', 'yday', 'lastday', 'first', 'idx', 'bisect_r', 'bisect_l'}
INT_OPS |= {'quot'}
DOMAIN = {'weekday': (0, 6), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59), 'second': (0, 59), 'year': (1, 9999),
          'len': (0, None), 'iters': (0, None), 'first': (0, None), 'lastday': (28, 31), 'bisect_r': (0, None), 'bisect_l': (0, None)}
DATE_OPS = {'dateadd', 'mkdate', 'dateof'}


def is_date_atom(a):
    if a.op == 'sym':
        return a.args[1] in ('date', 'datetime')
    if a.op in ('dateadd', 'mkdate', 'dateof'):
        return True
    ty = TYPE_HOOK(a) if TYPE_HOOK else None
    return ty in ('date', 'datetime')


TYPE_HOOK = None


def is_int_atom(a):
    if a.op in INT_OPS:
        return True
    if a.op == 'sym':
        return a.args[1] in ('int', 'date', 'pos_int') or (a.args[0].startswith('%') and a.args[0][1] in 'ik')
    if a.op in ('mkdate', 'dateof'):
        return True
    if a.op == 'dateadd':
        return is_int_atom(a.args[0])
    if a.op == 'bv':
        return True
    if a.op in ('min', 'max'):
        return all(is_int_term(x) for x in a.args)
    if a.op == 'sumc':
        return binder_parts(a)[1][1].op == 'num' and binder_parts(a)[1][1].args[0].denominator == 1
    ty = TYPE_HOOK(a) if TYPE_HOOK else None
    return ty in ('int', 'date')


def is_int_term(t):
    for m, c in tm._poly_items(t).items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e.denominator != 1 or e < 0 or not is_int_atom(a):
                return False
    return True


def lin_of(d):
    """poly -> (coefs: mono-key->Fraction, const)"""
    co, k = {}, Fraction(0)
    for m, c in tm._poly_items(d).items():
        if m == ():
            k = c
        else:
            co[m] = c
    return co, k


def mono_int(m):
    return all(e.denominator == 1 and e > 0 and is_int_atom(a) for a, e in m)


MAXC = 160


def tighten(co, k, strict):
    """constraint sum co*x + k >= 0 (or > 0)"""
    if co and all(mono_int(m) for m in co):
        den = 1
        for c in co.values():
            den = den * c.denominator // gcd(den, c.denominator)
        co = {m: c * den for m, c in co.items()}
        k = k * den
        g = 0
        for c in co.values():
            g = gcd(g, int(c))
        co = {m: c / g for m, c in co.items()}
        k = k / g
        # sum >= -k  -> sum >= ceil(-k); strict: sum > -k -> sum >= floor(-k)+1
        if strict:
            lo = (-k).__floor__() + 1
        else:
            lo = -((k).__floor__())
        return co, Fraction(-lo), False
    return co, k, strict


def feasible(cons):
    """cons: list of (co, k, kind) kind in '>', '>=', '='"""
    work = []
    eqs = []
    for co, k, kind in cons:
        if kind == '=':
            eqs.append((dict(co), k))
        else:
            work.append((dict(co), k, kind == '>'))
    # substitute equalities
    i = 0
    while i < len(eqs):
        co, k = eqs[i]
        i += 1
        if not co:
            if k != 0:
                return False
            continue
        if all(mono_int(m) for m in co):
            den = 1
            for c in co.values():
                den = den * c.denominator // gcd(den, c.denominator)
            g = 0
            for c in co.values():
                g = gcd(g, int(c * den))
            if (k * den).denominator != 1 or int(k * den) % g:
                return False
        # choose pivot with unit coefficient if possible
        piv = min(co, key=lambda m: (abs(co[m]) != 1, len(m)))
        pc = co[piv]
        rest = {m: -c / pc for m, c in co.items() if m != piv}
        rk = -k / pc
        pint = mono_int(piv)

        def sub_in(c2, k2):
            if piv not in c2:
                return c2, k2
            f = c2.pop(piv)
            for m, c in rest.items():
                c2[m] = c2.get(m, 0) + f * c
                if c2[m] == 0:
                    del c2[m]
            return c2, k2 + f * rk
        eqs = [eqs[j] if j < i else sub_in(dict(eqs[j][0]), eqs[j][1]) for j in range(len(eqs))]
        work = [(*sub_in(dict(c2), k2), s) for c2, k2, s in work]
    cur = {}

    def put(store, co, k, s):
        co, k, s = tighten(co, k, s)
        if not co:
            return not (k < 0 or (s and k == 0))
        key = tuple(sorted(((tuple((a.uid, e) for a, e in m)), c) for m, c in co.items()))
        # normalise scale
        lead = abs(key[0][1])
        key = tuple((m, c / lead) for m, c in key)
        kk = k / lead
        old = store.get(key)
        if old is None or kk < old[1] / old[3] or (kk == old[1] / old[3] and s):
            store[key] = (co, k, s, lead)
        return True
    for co, k, s in work:
        if not put(cur, co, k, s):
            return False
    for _ in range(40):
        vars_ = {}
        for co, k, s, _l in cur.values():
            for m, c in co.items():
                p = vars_.setdefault(m, [0, 0])
                p[0 if c > 0 else 1] += 1
        if not vars_:
            return True
        v = min(vars_, key=lambda m: (vars_[m][0] * vars_[m][1] - vars_[m][0] - vars_[m][1]))
        ups, downs, new = [], [], {}
        for co, k, s, _l in cur.values():
            c = co.get(v)
            if c is None:
                if not put(new, co, k, s):
                    return False
            elif c > 0:
                ups.append((co, k, s))
            else:
                downs.append((co, k, s))
        if len(ups) * len(downs) > MAXC:
            return True
        for c1, k1, s1 in ups:
            for c2, k2, s2 in downs:
                a, b = -c2[v], c1[v]
                co = {}
                for m, c in c1.items():
                    co[m] = co.get(m, 0) + a * c
                for m, c in c2.items():
                    co[m] = co.get(m, 0) + b * c
                co = {m: c for m, c in co.items() if c != 0}
                if not put(new, co, a * k1 + b * k2, s1 or s2):
                    return False
        cur = new
        if len(cur) > MAXC:
            return True
    return True


_EXIT = {}


def exit_rule(c):
    """the loop condition fails at the iteration number at which the loop stops"""
    if c.op in ('pos', 'zero') and not any(a.op == 'iters' or a.args and any(isinstance(x, T) and x.height for x in a.args) for m in tm._poly_items(c.args[0]) for a, e in m):
        return None
    k = _EXIT.get(c)
    if k is not None:
        return k[0]
    r = None
    for t in collect(c, lambda x: x.op == 'iters'):
        if contains(t, lambda x: x.op == 'bv' and False):
            continue
        vs, b, p = open_binder(t)
        at = subst(b[0], {vs[0]: t})
        d = conj_decide(at, c)
        if d is not None:
            r = d
            break
    _EXIT[c] = (r,)
    return r


def conj_decide(at, c):
    """`at` is known false; what does that say about the atom c?"""
    if at is c:
        return False
    if at.op == 'not' and at.args[0] is c:
        return True
    return None


class Facts:
    __slots__ = ('conds', 'true', 'lits', '_cache', 'parent')

    def __init__(self, conds=(), true=frozenset(), lits=()):
        self.conds, self.true, self.lits = conds, true, lits
        self._cache = {}

    def add(self, c):
        """assume c"""
        if c is TRUE or c.op == 'unk':
            return self
        new = []
        stack = [c]
        while stack:
            x = stack.pop()
            if x is TRUE or x in self.true:
                continue
            if x.op == 'ite':
                if x.args[2] is FALSE:
                    stack += [x.args[1], x.args[0]]
                    continue
                if x.args[1] is FALSE:
                    stack += [x.args[2], not_(x.args[0])]
                    continue
                # one side already excluded
                d = self.decide(x.args[0], cheap=True)
                if d is True:
                    stack.append(x.args[1]); continue
                if d is False:
                    stack.append(x.args[2]); continue
                if x.args[1] is TRUE and self.decide(x.args[2], cheap=True) is False:
                    stack.append(x.args[0]); continue
            new.append(x)
        if not new:
            return self
        f = Facts(self.conds + tuple(new), self.true | frozenset(new), None)
        return f

    def prefix(self, other):
        k = 0
        while k < len(self.conds) and k < len(other.conds) and self.conds[k] is other.conds[k]:
            k += 1
        return Facts(self.conds[:k], frozenset(self.conds[:k]), None)

    # ---- decision
    def decide(self, c, cheap=False):
        """True / False / None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == 'unk':
            return None
        key = (c, cheap)
        if key in self._cache:
            return self._cache[key]
        r = self._decide(c, cheap)
        self._cache[key] = r
        return r

    def _decide(self, c, cheap):
        if c in self.true:
            return True
        n = not_(c)
        if n in self.true:
            return False
        if c.op == 'not':
            r = self.decide(c.args[0], cheap)
            return None if r is None else not r
        if c.op == 'ite':
            d = self.decide(c.args[0], cheap)
            if d is True:
                return self.decide(c.args[1], cheap)
            if d is False:
                return self.decide(c.args[2], cheap)
            if cheap:
                return None
            a = self.add(c.args[0]).decide(c.args[1])
            if a is None:
                return None
            b = self.add(not_(c.args[0])).decide(c.args[2])
            return a if a == b else None
        r = exit_rule(c)
        if r is not None:
            return r
        if c.op == 'eq':
            r = self._eq(c)
            if r is not None:
                return r
            return None
        if c.op in ('pos', 'zero') and not cheap:
            return self._lin(c)
        return None

    def _eq(self, c):
        x, k = (c.args[0], c.args[1])
        if x.op in ('enum', 'const') and not (k.op in ('enum', 'const')):
            x, k = k, x
        if k.op not in ('enum', 'const'):
            return None
        excluded = set()
        for f in self.conds:
            g, negd = (f.args[0], True) if f.op == 'not' else (f, False)
            if g.op != 'eq':
                continue
            y, k2 = g.args
            if y.op in ('enum', 'const') and k2.op not in ('enum', 'const'):
                y, k2 = k2, y
            if y is not x or k2.op not in ('enum', 'const'):
                continue
            if not negd:
                return k2 is k
            excluded.add(k2)
        if k.op == 'enum' and ENUM_MEMBERS and x.op == 'sym' and x.args[1] == 'enum:' + k.args[0]:
            others = [m for m in ENUM_MEMBERS(k.args[0]) if m is not k]
            if all(m in excluded for m in others):
                return True
        return None

    def _cons(self, atoms):
        """linear constraints relevant to the atoms (transitively)"""
        cs = []
        neq = []
        for f in self.conds:
            g, ng = (f.args[0], True) if f.op == 'not' else (f, False)
            if g.op == 'pos':
                co, k = lin_of(g.args[0])
                cs.append(({m: -v for m, v in co.items()}, -k, '>=') if ng else (co, k, '>'))
            elif g.op == 'zero':
                co, k = lin_of(g.args[0])
                if ng:
                    neq.append((co, k))
                else:
                    cs.append((co, k, '='))
        # relevance closure
        rel = set(atoms)
        chosen = []
        changed = True
        seen = set(rel)
        for c in cs:
            seen |= set(c[0])
        left = list(cs)
        left += domains(seen)
        left += calendar(seen, self.conds)
        while changed:
            changed = False
            nl = []
            for c in left:
                if not rel.isdisjoint(c[0]):
                    chosen.append(c)
                    for m in c[0]:
                        if m not in rel:
                            rel.add(m)
                    changed = True
                else:
                    nl.append(c)
            left = nl
        return chosen, [n for n in neq if not rel.isdisjoint(n[0])]

    def _lin(self, c):
        co, k = lin_of(c.args[0])
        cs, neq = self._cons(co)
        if len(cs) > 60:
            cs = cs[-60:]

        def feas(extra):
            base = cs + [extra]
            if not feasible(base):
                return False
            return strengthen(base, neq[:12]) is not None
        negco = {m: -v for m, v in co.items()}
        if c.op == 'pos':
            if not feas((co, k, '>')):
                return False
            if not feas((negco, -k, '>=')):
                return True
            return None
        if not feas((co, k, '=')):
            return False
        if not feas((co, k, '>')) and not feas((negco, -k, '>')):
            return True
        return None

    def contradictory(self):
        for f in self.conds:
            if self._decide_without(f) is False:
                return True
        return False

    def _decide_without(self, f):
        return None


ENUM_MEMBERS = None


def month_shift(rest):
    out = {}
    for mn, c in tm._poly_items(rest).items():
        us = [(a, e) for a, e in mn if a.op == 'sym' and a.args[0] in ('%month', '%year')]
        if len(us) != 1 or us[0][1] != 1:
            return None
        q = tuple(x for x in mn if x[0] is not us[0][0])
        out[q] = out.get(q, Fraction(0)) + c * Fraction('30.436875') * (12 if us[0][0].args[0] == '%year' else 1)
    return out


def domains(monos):
    """domain constraints of the monomials and of those they introduce; adds these to the set"""
    out = []
    todo = list(monos)
    for _ in range(400):
        if not todo:
            break
        for c in domain(todo.pop()):
            out.append(c)
            for m in c[0]:
                if m not in monos:
                    monos.add(m)
                    todo.append(m)
    return out


def domain(m):
    out = []
    if len(m) == 1 and m[0][1] == 1:
        a = m[0][0]
        d = DOMAIN.get(a.op)
        if a.op == 'dateadd':
            # whole months shift a date by 30.436875 days each, up to a few days
            co = month_shift(a.args[1])
            if co is not None:
                cd, kd = lin_of(a.args[0])
                for sg in (1, -1):
                    cc = {m: Fraction(sg)}
                    k = Fraction(6)
                    for q, v in cd.items():
                        cc[q] = cc.get(q, Fraction(0)) - sg * v
                    k -= sg * kd
                    for q, v in co.items():
                        if q == ():
                            k -= sg * v
                        else:
                            cc[q] = cc.get(q, Fraction(0)) - sg * v
                    out.append(({q: v for q, v in cc.items() if v}, k, '>='))
        out += extreme(a, m)
        if a.op == 'mkdate':
            # the ordinal of a date follows its year, month and day up to a few days
            for sg in (1, -1):
                cc, k = {m: Fraction(sg)}, Fraction(5) + sg * Fraction(398)
                for z, w in zip(a.args, (Fraction('365.2425'), Fraction('30.436875'), Fraction(1))):
                    cz, kz = lin_of(z)
                    k -= sg * w * kz
                    for q, v in cz.items():
                        cc[q] = cc.get(q, Fraction(0)) - sg * w * v
                out.append(({q: v for q, v in cc.items() if v}, k, '>='))
        if a.op == 'mod' and a.args[1].op == 'num' and a.args[1].args[0] > 0:
            d = (0, a.args[1].args[0] - 1 if is_int_term(a.args[0]) else None)
            if d[1] is None:
                out.append(({m: Fraction(-1)}, Fraction(a.args[1].args[0]), '>'))
        if a.op == 'mod' and a.args[1].op == 'num' and a.args[1].args[0] > 0 and is_int_term(a.args[0]) and a.args[1].args[0].denominator == 1:
            co, k = lin_of(a.args[0])
            co = dict(co)
            co[m] = co.get(m, Fraction(0)) - 1
            co[((mk('quot', a.args[0], a.args[1]), Fraction(1)),)] = -a.args[1].args[0]
            out.append((co, k, '='))
        if a.op == 'sym' and a.args[1] in ('pos', 'pos_int'):
            out.append(({m: Fraction(1)}, Fraction(0), '>'))
        if a.op == 'exp' or (a.op == 'sym' and a.args[1] == 'nonneg'):
            out.append(({m: Fraction(1)}, Fraction(0), '>=' if a.op == 'sym' else '>'))
        if a.op == 'sym' and a.args[0].startswith('%') and a.args[0][1] in 'ik':
            out.append(({m: Fraction(1)}, Fraction(0), '>='))
        if d:
            if d[0] is not None:
                out.append(({m: Fraction(1)}, Fraction(-d[0]), '>='))
            if d[1] is not None:
                out.append(({m: Fraction(-1)}, Fraction(d[1]), '>='))
    elif all(e % 2 == 0 for a, e in m):
        out.append(({m: Fraction(1)}, Fraction(0), '>='))
    return out


def extreme(a, m):
    """the key of the first (last) item of a sorted sequence bounds the keys of the items known to be in it"""
    import seqs
    z = next(iter(tm.collect(a, lambda t: t.op == 'at' and t.args[0].op == 'sortedk')), None)
    if z is None:
        return []
    vs, b, p = tm.open_binder(z.args[0])
    if len(vs) != 1 or len(p) != 1 or tm.subst(b[0], {vs[0]: z}) is not a:
        return []
    L = p[0]
    k = seqs.as_int(z.args[1])
    if k == 0:
        sg = -1
    elif seqs.as_int(tm.sub(z.args[1], seqs.slen(L))) == -1:
        sg = 1
    else:
        return []
    els = []
    if L.op in ('concat', 'list'):
        for q in (L.args if L.op == 'concat' else (L,)):
            if q.op == 'list':
                els += q.args
    elif L.op == 'comp':
        ws, c, n = tm.open_binder(L)
        if len(ws) == 1 and c[0].op == 'ite' and c[0].args[0].op == 'zero' and c[0].args[0].args[0] is ws[0]:
            els.append(tm.subst(c[0].args[1], {ws[0]: tm.ZERO}))
    out = []
    for e in els:
        co, kk = lin_of(tm.sub(a, tm.subst(b[0], {vs[0]: e})))
        if m in co:
            out.append(({q: sg * v for q, v in co.items()}, sg * kk, '>='))
    return out


def calendar(monos, conds):
    """day <= length of a month fixed by the path; date order against year order"""
    out = []
    fields = {}
    for m in monos:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('year', 'month', 'day'):
            a = m[0][0]
            fields.setdefault(a.args[0], {})[a.op] = m
    for d, f in fields.items():
        if 'month' in f and 'day' in f:
            mt = f['month'][0][0]
            for c in conds:
                if c.op == 'zero':
                    co, k = lin_of(c.args[0])
                    if len(co) == 1 and f['month'] in co:
                        v = -k / co[f['month']]
                        n = {2: 29, 4: 30, 6: 30, 9: 30, 11: 30}.get(v)
                        if n:
                            out.append(({f['day']: Fraction(-1)}, Fraction(n), '>='))
    ds = [d for d in fields if 'year' in fields[d] and all(a.op == 'sym' or not is_date_atom(a) for mm in tm._poly_items(d) for a, e in mm)]
    for i, x in enumerate(ds):
        for y in ds[i + 1:]:
            # |(x - y) - 365.2425 (yx - yy)| < 367
            cx, kx = lin_of(sub(x, y))
            cy = dict(cx)
            r = Fraction('365.2425')
            cy[fields[x]['year']] = cy.get(fields[x]['year'], 0) - r
            cy[fields[y]['year']] = cy.get(fields[y]['year'], 0) + r
            out.append((cy, kx + 367, '>='))
            out.append(({m: -v for m, v in cy.items()}, -kx + 367, '>='))
            # same or earlier date implies same or earlier year is covered above only up to a year: add the exact order when known
            for c in conds:
                g, ng = (c.args[0], True) if c.op == 'not' else (c, False)
                if g.op != 'pos':
                    continue
                e = sub(x, y)
                if g.args[0] is e and ng or g.args[0] is neg(e) and not ng:      # x <= y
                    out.append(({fields[y]['year']: Fraction(1), fields[x]['year']: Fraction(-1)}, Fraction(0), '>='))
                if g.args[0] is neg(e) and ng or g.args[0] is e and not ng:      # y <= x
                    out.append(({fields[x]['year']: Fraction(1), fields[y]['year']: Fraction(-1)}, Fraction(0), '>='))
    return out


def infeasible(facts):
    """are the numeric facts jointly contradictory?"""
    cs, neq = [], []
    rel = set()
    for f in facts.conds:
        g, ng = (f.args[0], True) if f.op == 'not' else (f, False)
        if g.op in ('pos', 'zero'):
            co, k = lin_of(g.args[0])
            rel |= set(co)
            if g.op == 'pos':
                cs.append(({m: -v for m, v in co.items()}, -k, '>=') if ng else (co, k, '>'))
            elif ng:
                neq.append((co, k))
            else:
                cs.append((co, k, '='))
    cs += domains(rel)
    cs += calendar(rel, facts.conds)
    if not feasible(cs):
        return True
    return strengthen(cs, neq[:16]) is None


def strengthen(cs, neq):
    """turn disequalities into strict inequalities where only one side is possible; None when contradictory"""
    left = list(neq)
    changed = True
    while changed and left:
        changed = False
        rest = []
        for co2, k2 in left:
            up = (co2, k2, '>')
            dn = ({m: -v for m, v in co2.items()}, -k2, '>')
            u, d = feasible(cs + [up]), feasible(cs + [dn])
            if not u and not d:
                return None
            if u and d:
                rest.append((co2, k2))
            else:
                cs = cs + [up if u else dn]
                changed = True
        left = rest
    return cs, left


def split(cs, neq, budget):
    """some sign choice for every disequality is feasible"""
    r = strengthen(cs, neq)
    if r is None:
        return False
    cs, left = r
    if not left:
        return True
    budget[0] -= 1
    if budget[0] < 0:
        return False
    co2, k2 = left[0]
    return split(cs + [(co2, k2, '>')], left[1:], budget) or split(cs + [({m: -v for m, v in co2.items()}, -k2, '>')], left[1:], budget)


def vouched(facts):
    """the numeric facts have a common model in the relaxation, with every disequality settled"""
    cs, neq = [], []
    rel = set()
    for f in facts.conds:
        g, ng = (f.args[0], True) if f.op == 'not' else (f, False)
        if g.op in ('pos', 'zero'):
            co, k = lin_of(g.args[0])
            rel |= set(co)
            if g.op == 'pos':
                cs.append(({m: -v for m, v in co.items()}, -k, '>=') if ng else (co, k, '>'))
            elif ng:
                neq.append((co, k))
            else:
                cs.append((co, k, '='))
    cs += domains(rel)
    cs += calendar(rel, facts.conds)
    return feasible(cs) and split(cs, neq, [64])
