"""Abstract interpreter over the repository's syntax trees: computes, for a function, the gated value graph of its result
and of the conditions under which it raises.  Nothing is imported from or executed in the repository."""
import ast
from fractions import Fraction
from terms import *
import terms as tm
from seqs import *
import seqs
from lin import Facts
import lin
from project import ClassInfo, FuncInfo, Module, PKG

BUILTIN_EXC = {
    'Exception': None, 'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'LookupError': 'Exception',
    'KeyError': 'LookupError', 'IndexError': 'LookupError', 'ValueError': 'Exception', 'TypeError': 'Exception',
    'AttributeError': 'Exception', 'NameError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception',
    'AssertionError': 'Exception', 'StopIteration': 'Exception', 'UnboundLocalError': 'NameError', 'RecursionError': 'RuntimeError',
    'OverflowError': 'ArithmeticError', 'BaseException': None, 'LinAlgError': 'ValueError',
}


def exc_is(e, h):
    while e is not None:
        if e == h:
            return True
        e = BUILTIN_EXC.get(e)
    return h in ('Exception', 'BaseException')


class Undecided(Exception):
    pass


class State:
    __slots__ = ('heap', 'guards', 'facts', 'dead', 'path')

    def __init__(self, heap, guards, facts, dead=False, path=TRUE):
        self.heap, self.guards, self.facts, self.dead, self.path = heap, guards, facts, dead, path

    def copy(self):
        return State(dict(self.heap), list(self.guards), self.facts, self.dead, self.path)

    def assume(self, c):
        self.facts = self.facts.add(c)
        self.path = and_(self.path, c)
        return self

    def become(self, o):
        self.heap, self.guards, self.facts, self.dead, self.path = o.heap, o.guards, o.facts, o.dead, o.path


class Out:
    """result of executing a block: at most one merged state per kind of exit; conditions are relative to the block entry"""
    __slots__ = ('fall', 'ret', 'brk', 'cont')

    def __init__(self, fall=None, ret=None, brk=None, cont=None):
        self.fall, self.ret, self.brk, self.cont = fall, ret, brk, cont   # (cond, state[, value])


class Ctx:
    __slots__ = ('fid', 'func', 'module', 'cls', 'depth', 'selfv', 'gen', 'in_try', 'globals_')

    def __init__(self, fid, func, module, cls, depth, selfv=None):
        self.fid, self.func, self.module, self.cls, self.depth, self.selfv = fid, func, module, cls, depth, selfv
        self.gen = None
        self.in_try = ()
        self.globals_ = set()


MAXDEPTH = 60

MONTH = mk('sym', '%month', 'rd')
DAY = mk('sym', '%day', 'rd')


class Interp:
    def __init__(self, project, opaque=(), budget=400000):
        self.p = project
        self.opaque = set(opaque)
        self.budget = budget
        self.clos = {}
        self.static = {'%rng': ('frame', {'seed': mk('sym', 'rng0', None), 'pos': ZERO}, None)}
        self.modconst = {}
        self.nid = 0
        self.used = {}        # FuncInfo.where of every inlined function
        self.opaque_used = set()
        self.stack = []
        self.deco_cache = {}
        self.notes = []
        self.attr_types = {}
        lin.TYPE_HOOK = self.ty
        self.tries, self.snaps = 0, {}     # the heap at every exception raised inside a try
        lin.ENUM_MEMBERS = self.enum_members
        seqs.INST_ATTR[0] = self.inst_attr
        import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------------ small helpers
    def new_id(self):
        self.nid += 1
        return self.nid

    def alloc(self, st, obj):
        i = self.new_id()
        st.heap[i] = obj
        return mk('ref', i)

    def obj(self, st, ref):
        i = ref.args[0]
        o = st.heap.get(i)
        return o if o is not None else self.static.get(i)

    def cls(self, key):
        m, n = key.split(':')
        return self.p.modules[m].classes[n]

    def enum_members(self, key):
        c = self.cls(key)
        return [mk('enum', key, n) for n in c.attrs if not n.startswith('_')]

    def enum_value(self, t):
        c = self.cls(t.args[0])
        return self.class_attr(c, t.args[1])

    def step(self):
        self.budget -= 1
        if self.budget <= 0:
            raise Undecided('analysis budget exhausted')

    def raise_(self, st, cond, exc):
        """record that `exc` is raised at this point when cond holds"""
        if st.dead:
            return
        d = st.facts.decide(cond)
        if d is False:
            return
        if d is True:
            g = (st.path, exc)
            st.guards.append(g)
            st.dead = True
        else:
            g = (and_(st.path, cond), exc)
            st.guards.append(g)
            st.facts = st.facts.add(not_(cond))
        if self.tries:
            self.snaps[id(g)] = (g, dict(st.heap))

    def fail(self, st, exc):
        self.raise_(st, TRUE, exc)
        return mk('raise', exc)

    # ------------------------------------------------------------------ types
    def ty(self, t):
        op = t.op
        if op == 'num':
            return 'int' if t.args[0].denominator == 1 else 'float'
        if op == 'sym':
            return t.args[1]
        if op == 'const':
            v = t.args[0]
            return 'str' if isinstance(v, str) and not v.endswith('#') else ('None' if v is None else ('bool' if isinstance(v, bool) else 'float'))
        if op == 'enum':
            return 'enum:' + t.args[0]
        if op == 'rec':
            return 'rec:' + t.args[0]
        if op in ('pos', 'zero', 'eq', 'not', 'in', 'exists', 'truth', 'isinst'):
            return 'bool'
        if op in ('dateadd',):
            return self.ty(t.args[0])
        if op in ('mkdate', 'dateof'):
            return 'date'
        if op == 'mkdatetime':
            return 'datetime'
        if op in lin.INT_OPS:
            return 'int'
        if op == 'poly':
            kinds = set()
            ndate = Fraction(0)
            dt = False
            for k, c in zip(t.args[0::2], t.args[1::2]):
                a = k.args
                for j in range(0, len(a), 2):
                    x = self.ty(a[j])
                    if x == 'rd':
                        return 'rd'
                    if x in ('ndarray', 'arr'):
                        return 'ndarray'
                if len(a) == 2 and a[1] == 1:
                    x = self.ty(a[0])
                    if x in ('date', 'datetime'):
                        ndate += c
                        dt = dt or x == 'datetime'
            if ndate == 1:
                return 'datetime' if dt else 'date'
            return 'num'
        if op == 'at':
            b = self.ty(t.args[0])
            if b and b.startswith('seq:'):
                return b[4:]
            if t.args[0].op == 'keys':
                d = self.ty(t.args[0].args[0])
                if d and d.startswith('dict:'):
                    return d.split(':')[1]
            if t.args[0].op in ('sortedk', 'slice', 'reversed', 'setof', 'uniq'):
                base = binder_parts(t.args[0])[2][0] if t.args[0].op == 'sortedk' else t.args[0].args[0]
                return self.elem_ty(base)
            return None
        if op == 'get':
            b = self.ty(t.args[0])
            if b and b.startswith('dict:'):
                return b.split(':', 2)[2]
            return None
        if op == 'attr':
            b = self.ty(t.args[0])
            if b and b.startswith(('obj:', 'rec:')):
                return self.ann_type(b[4:], t.args[1])
            return None
        if op == 'call' and t.args[0].op == 'fn':
            fi = self.fn_info(t.args[0])
            if fi is not None and fi.node.returns is not None:
                r = ann_to_ty(fi.node.returns)
                if r in ('date', 'seq:date') and any(self.ty(x) == 'datetime' for x in t.args[1:]):
                    # dates in, dates out; instants in, instants out
                    return r[:-4] + 'datetime'
                return r
            return None
        if op == 'call' and t.args[0].op == 'attr':
            b = self.ty(t.args[0].args[0])
            if b and b.startswith('obj:'):
                c = self.p.find_class(b[4:])
                fi = c.find(t.args[0].args[1]) if c else None
                if fi is not None and fi.node.returns is not None:
                    return ann_to_ty(fi.node.returns)
            return None
        if op == 'call':
            b = self.ty(t.args[0])
            if b and b.startswith('obj:'):
                c = self.p.find_class(b[4:])
                fi = c.find('__call__') if c else None
                if fi is not None and fi.node.returns is not None:
                    return ann_to_ty(fi.node.returns)
            if b and b.startswith('fn:'):
                return b[3:]
            return None
        if op == 'ite':
            a = self.ty(t.args[1])
            b = self.ty(t.args[2])
            return a if a == b else None
        if op in ('arr', 'mm', 'T'):
            return 'ndarray'
        if op in ('list', 'comp', 'filt', 'flat', 'concat', 'sortedk', 'tuple'):
            return 'seq'
        if op == 'iterate':
            return None
        return None

    def elem_ty(self, s):
        b = self.ty(s)
        if b and b.startswith('seq:'):
            return b[4:]
        if s.op == 'list' and s.args:
            ts = {self.ty(x) for x in s.args}
            return ts.pop() if len(ts) == 1 else None
        if s.op == 'comp':
            return self.ty(open_binder(s)[1][0])
        if s.op == 'filt':
            return self.ty(open_binder(s)[1][1])
        if s.op in ('sortedk',):
            return self.elem_ty(binder_parts(s)[2][0])
        if s.op in ('slice', 'reversed', 'setof', 'uniq'):
            return self.elem_ty(s.args[0])
        return None

    def ann_type(self, clsname, attr):
        c = self.p.find_class(clsname) if ':' not in clsname else self.cls(clsname)
        if c is None:
            return None
        for k in c.mro():
            for st in k.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == attr:
                    return ann_to_ty(st.annotation)
            m = k.methods.get(attr)
            if m is not None and m.kind == 'property' and m.node.returns is not None:
                return ann_to_ty(m.node.returns)
        # parameter annotations of __init__ with the same name
        fi = c.find('__init__')
        if fi is not None:
            for a in fi.node.args.args + fi.node.args.kwonlyargs:
                if a.arg == attr and a.annotation is not None:
                    return ann_to_ty(a.annotation)
        return None

    # ------------------------------------------------------------------ state merge
    def merge_val(self, c, a, b):
        return ite(c, a, b)

    def join(self, c, s1, s2):
        """merge two states reached under c / not c"""
        if s1.dead and not s2.dead:
            r = s2
            r.guards = self._gmerge(s1.guards, s2.guards)
            return r
        if s2.dead and not s1.dead:
            r = s1
            r.guards = self._gmerge(s1.guards, s2.guards)
            return r
        heap = {}
        h1, h2 = s1.heap, s2.heap
        for k in h1.keys() | h2.keys():
            a, b = h1.get(k), h2.get(k)
            if a is b:
                heap[k] = a
            elif a is None:
                base = self.static.get(k)
                heap[k] = b if base is None or base is b else self._mobj(c, base, b)
            elif b is None:
                base = self.static.get(k)
                heap[k] = a if base is None or base is a else self._mobj(c, a, base)
            else:
                heap[k] = self._mobj(c, a, b)
        return State(heap, self._gmerge(s1.guards, s2.guards), s1.facts.prefix(s2.facts), s1.dead and s2.dead,
                     or_path(s1.path, s2.path))

    def _gmerge(self, g1, g2):
        k = 0
        while k < len(g1) and k < len(g2) and g1[k] is g2[k]:
            k += 1
        return g1[:k] + g1[k:] + g2[k:]

    def _mobj(self, c, a, b):
        if a[0] == 'frame':
            va, vb = a[1], b[1]
            out = {}
            for n in list(va) + [x for x in vb if x not in va]:
                if n in va and n in vb:
                    out[n] = va[n] if va[n] is vb[n] else ite(c, va[n], vb[n])
                elif n in va:
                    out[n] = va[n]
                else:
                    out[n] = vb[n]
            return ('frame', out, a[2])
        if a[0] == 'inst':
            va, vb = a[2], b[2]
            out = {}
            for n in list(va) + [x for x in vb if x not in va]:
                if n in va and n in vb:
                    out[n] = va[n] if va[n] is vb[n] else ite(c, va[n], vb[n])
                elif n in va:
                    out[n] = ite(c, va[n], mk('const', 'unset#'))
                else:
                    out[n] = ite(c, mk('const', 'unset#'), vb[n])
            return ('inst', a[1], out)
        if a[1].op == 'arr' and b[1].op == 'arr':
            r = self._marr(c, a[1].args[0], b[1].args[0])
            if r is not None:
                return (a[0], mk('arr', r))
        return (a[0], ite(c, a[1], b[1]))

    def _marr(self, c, x, y):
        """explicit arrays of one shape merge item by item"""
        if x.op != 'list' or y.op != 'list' or len(x.args) != len(y.args):
            return None
        out = []
        for p, q in zip(x.args, y.args):
            if p is q:
                out.append(p)
            elif p.op == 'list' or q.op == 'list':
                out.append(self._marr(c, p, q))
            elif p.op in ('comp', 'flat', 'concat', 'filt', 'ite') or q.op in ('comp', 'flat', 'concat', 'filt', 'ite'):
                return None
            else:
                out.append(ite(c, p, q))
            if out[-1] is None:
                return None
        return mk('list', *out)

    def join_outs(self, c, o1, o2):
        def j(x, y, val):
            if x is None and y is None:
                return None
            if x is None:
                return (and_(not_(c), y[0]),) + tuple(y[1:])
            if y is None:
                return (and_(c, x[0]),) + tuple(x[1:])
            rc = ite(c, x[0], y[0])
            # selection: given one of them applies
            stt = self.join(c if True else None, x[1], y[1])
            if val:
                return (rc, stt, ite(c, x[2], y[2]))
            return (rc, stt)
        return Out(j(o1.fall, o2.fall, False), j(o1.ret, o2.ret, True), j(o1.brk, o2.brk, False), j(o1.cont, o2.cont, False))

    def seq_outs(self, o1, cond, o2):
        """o1 then (its fall part, cond) continued by o2: combine the exits"""
        def j(x, y, val):
            if y is None:
                return x
            yc = and_(cond, y[0])
            if x is None:
                return (yc,) + tuple(y[1:])
            stt = self.join(x[0], x[1], y[1])
            rc = or_(x[0], yc)
            if val:
                return (rc, stt, ite(x[0], x[2], y[2]))
            return (rc, stt)
        fall = None
        if o2.fall is not None:
            fall = (and_(cond, o2.fall[0]), o2.fall[1])
        return Out(fall, j(o1.ret, o2.ret, True), j(o1.brk, o2.brk, False), j(o1.cont, o2.cont, False))

    def fork(self, st, c, f1, f2):
        """evaluate f1(state) under c, f2(state) under not c; merge into st; returns merged value"""
        d = st.facts.decide(c)
        if d is True:
            return f1(st)
        if d is False:
            return f2(st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(not_(c))
        v1 = f1(s1)
        v2 = f2(s2)
        if s1.dead and not s2.dead:
            s2.guards = self._gmerge(s1.guards, s2.guards)
            st.become(s2)
            return v2
        if s2.dead and not s1.dead:
            s1.guards = self._gmerge(s1.guards, s2.guards)
            st.become(s1)
            return v1
        p = st.path
        st.become(self.join(c, s1, s2))
        st.path = p
        return ite(c, v1, v2)

    def dist(self, t, st, f):
        """apply f(value, state) through gates"""
        if t.op == 'ite':
            return self.fork(st, t.args[0], lambda s: self.dist(t.args[1], s, f), lambda s: self.dist(t.args[2], s, f))
        return f(t, st)

    # ------------------------------------------------------------------ freezing heap values
    def freeze(self, t, st, only=None, depth=0):
        """replace references by value terms (contents); `only`: restrict to these ref ids"""
        if depth > 30:
            return unk('cyclic structure')
        refs = collect(t, lambda x: x.op == 'ref' or x.op in ('clo', 'bm'))
        if not refs:
            return t
        m = {}
        for r in refs:
            if r.op == 'ref':
                if only is not None and r.args[0] not in only:
                    continue
                o = self.obj(st, r)
                if o is None:
                    m[r] = unk('dangling')
                elif o[0] in ('list',):
                    m[r] = self.freeze(o[1], st, only, depth + 1)
                elif o[0] == 'set':
                    m[r] = mk('setof', self.freeze(o[1], st, only, depth + 1))
                elif o[0] == 'dict':
                    m[r] = self.freeze(o[1], st, only, depth + 1)
                elif o[0] == 'inst':
                    flat_ = []
                    for k in sorted(o[2]):
                        flat_ += [const(k), self.freeze(o[2][k], st, only, depth + 1)]
                    m[r] = mk('inst', o[1], *flat_)
            elif r.op == 'clo' and only is None:
                m[r] = self.lamify(r, st, depth)
        if not m:
            return t
        # nested closures inside replaced values were handled recursively
        return subst(t, m)

    def lamify(self, f, st, depth=0):
        rec = self.clos.get(f.args[0])
        if rec is None:
            return unk('closure')
        node = rec['node']
        a = node.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            return unk('closure with star arguments')
        params = a.posonlyargs + a.args
        nd = len(rec['defaults'])
        req = params[:len(params) - nd] if nd else params
        vs = [mk('sym', fresh('p').args[0], ann_to_ty(p.annotation) if p.annotation is not None else None) for p in req]
        if depth > 6 or len(self.stack) > MAXDEPTH:
            return unk('nested closures')
        s2 = st.copy()
        g0 = len(s2.guards)
        s2.path = TRUE
        v = self.call(f, list(vs), {}, s2, None)
        if s2.dead:
            v = mk('raise', s2.guards[-1][1])
        else:
            v = self.freeze(v, s2, None, depth + 1)
        for c, e in reversed(s2.guards[g0:]):
            v = ite(c, mk('raise', e), v)
        return bind('lam', vs, [v])

    # ------------------------------------------------------------------ names
    def frame_get(self, st, fid, name):
        while fid is not None:
            o = st.heap.get(fid) or self.static.get(fid)
            if name in o[1]:
                return o[1][name]
            fid = o[2]
        return None

    def frame_set(self, st, fid, name, v):
        o = st.heap.get(fid) or self.static.get(fid)
        d = dict(o[1])
        d[name] = v
        st.heap[fid] = ('frame', d, o[2])

    def resolved(self, r, name=''):
        if isinstance(r, ClassInfo):
            return mk('cls', r.key)
        if isinstance(r, FuncInfo):
            return self.fn_term(r)
        if isinstance(r, tuple) and r[0] == 'const':
            return self.module_const(r[1], r[2])
        if isinstance(r, tuple) and r[0] == 'mod':
            return mk('mod', r[1].name)
        if isinstance(r, str):
            return mk('pyfn', canon_ext(r))
        return None

    def fn_term(self, fi):
        if fi.decorators and fi.cls is None:
            return self.decorated(fi)
        return mk('fn', fi.module.name, fi.qual)

    def fn_info(self, t):
        m = self.p.modules.get(t.args[0])
        q = t.args[1]
        if m is None:
            return None
        if '.' in q:
            cn, fn = q.split('.', 1)
            c = m.classes.get(cn)
            if c is None:
                return None
            return c.methods.get(fn) or c.setters.get(fn)
        return m.functions.get(q)

    def decorated(self, fi):
        key = (fi.module.name, fi.qual)
        if key in self.deco_cache:
            return self.deco_cache[key]
        st = State({}, [], Facts())
        fid = self.new_id()
        st.heap[fid] = ('frame', {}, None)
        ctx = Ctx(fid, None, fi.module, fi.cls, 0)
        v = mk('rawfn', fi.module.name, fi.qual)
        try:
            for d in reversed(fi.decorators):
                dv = self.eval(d, st, ctx)
                v = self.call(dv, [v], {}, st, d)
        except Undecided as e:
            v = unk(str(e))
        self.static.update(st.heap)
        self.deco_cache[key] = v
        return v

    def module_const(self, m, name):
        key = (m.name, name)
        if key in self.modconst:
            return self.modconst[key]
        if m.altered(name):
            self.modconst[key] = unk('the module variable ' + name)
            return self.modconst[key]
        self.modconst[key] = unk('recursive module constant ' + name)
        st = State({}, [], Facts())
        fid = self.new_id()
        st.heap[fid] = ('frame', {}, None)
        ctx = Ctx(fid, None, m, None, 0)
        v = self.eval(m.assigns[name], st, ctx)
        if st.dead:
            v = unk('module constant raises')
        self.static.update(st.heap)
        self.modconst[key] = v
        return v

    def shared(self, st, k):
        """module variables and class attributes which functions have assigned"""
        return (st.heap.get(k) if st is not None else None) or self.static.get(k)

    def shared_set(self, st, k, name, v, initial):
        o = self.static.get(k)
        if o is None or name not in o[1]:
            if initial is None:
                raise Undecided(f'new shared variable {name}')
            self.static[k] = ('frame', dict(o[1] if o else {}) | {name: initial}, None)
            h = st.heap.get(k)
            if h is not None:
                st.heap[k] = ('frame', dict(h[1]) | {name: initial}, None)
        self.frame_set(st, k, name, v)

    def class_attr(self, c, name, st=None):
        if st is not None:
            for b in c.mro():
                o = self.shared(st, '%c:' + b.key) if isinstance(b, ClassInfo) else None
                if o is not None and name in o[1]:
                    return o[1][name]
                if isinstance(b, ClassInfo) and (name in b.attrs or name in b.methods):
                    break
        key = (c.key, name)
        if key in self.modconst:
            return self.modconst[key]
        r = c.find_attr(name)
        if r is None:
            return None
        owner, expr = r
        self.modconst[key] = unk('recursive class constant')
        st = State({}, [], Facts())
        fid = self.new_id()
        st.heap[fid] = ('frame', {}, None)
        ctx = Ctx(fid, None, owner.module, owner, 0)
        v = self.eval(expr, st, ctx)
        self.static.update(st.heap)
        self.modconst[key] = v
        return v

    def lookup(self, name, st, ctx):
        if name not in ctx.globals_:
            v = self.frame_get(st, ctx.fid, name)
            if v is not None:
                return v
        if ctx.func is None and ctx.cls is not None and ctx.cls.find_attr(name):
            return self.class_attr(ctx.cls, name)
        if ctx.func is None and ctx.cls is not None and name in ctx.cls.methods:
            return mk('fn', ctx.cls.module.name, ctx.cls.methods[name].qual)
        o = self.shared(st, '%g:' + ctx.module.name)
        if o is not None and name in o[1]:
            return o[1][name]
        r = self.p.resolve_name(ctx.module, name)
        if r is not None:
            v = self.resolved(r, name)
            if v is not None:
                return v
        if name in BUILTIN_EXC:
            return mk('pyfn', name)
        if name in self.lib.BUILTINS:
            return mk('pyfn', name)
        return None

    # ------------------------------------------------------------------ expressions
    def eval(self, n, st, ctx):
        self.step()
        if st.dead:
            return mk('raise', 'dead')
        m = getattr(self, 'e_' + n.__class__.__name__, None)
        if m is None:
            return unk('expression ' + n.__class__.__name__)
        return m(n, st, ctx)

    def e_Constant(self, n, st, ctx):
        return const(n.value)

    def e_Name(self, n, st, ctx):
        v = self.lookup(n.id, st, ctx)
        if v is None:
            if ctx.module.binds(n.id):
                return unk('the module variable ' + n.id)
            return self.fail(st, 'NameError')
        if v.op == 'const' and v.args[0] == 'unset#':
            return self.fail(st, 'UnboundLocalError')
        return v

    def e_JoinedStr(self, n, st, ctx):
        parts = []
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                v = self.freeze(self.eval(x.value, st, ctx), st) if isinstance(x.value, (ast.Name, ast.Attribute, ast.Call)) else self.eval(x.value, st, ctx)
                parts.append(mk('fstr', v) if v.op == 'num' and x.format_spec is None and x.conversion == -1 else v)
            else:
                parts.append(self.eval(x, st, ctx))
        if all(p.op == 'const' and isinstance(p.args[0], str) for p in parts):
            return const(''.join(p.args[0] for p in parts))
        return mk('fstr', *parts)

    def e_FormattedValue(self, n, st, ctx):
        return mk('fstr', self.eval(n.value, st, ctx))

    def e_Tuple(self, n, st, ctx):
        return mk('tuple', *norm_seq_args(self.elts(n.elts, st, ctx)))

    def elts(self, elts, st, ctx):
        parts = []
        for e in elts:
            if isinstance(e, ast.Starred):
                parts.append(self.iter_seq(self.eval(e.value, st, ctx), st, ctx))
            else:
                parts.append(seq(self.eval(e, st, ctx)))
        return concat(*parts)

    def e_List(self, n, st, ctx):
        return self.alloc(st, ('list', self.elts(n.elts, st, ctx)))

    def e_Set(self, n, st, ctx):
        return self.alloc(st, ('set', self.elts(n.elts, st, ctx)))

    def e_Dict(self, n, st, ctx):
        d = mk('dict')
        for k, v in zip(n.keys, n.values):
            if k is None:
                other = self.content(self.eval(v, st, ctx), st)
                if d.op == 'dict' and not d.args:
                    d = other
                elif other.op == 'dict':
                    for a, b in zip(other.args[0::2], other.args[1::2]):
                        d = dset(d, a, b)
                else:
                    d = unk('dict merge')
                continue
            kv = self.eval(k, st, ctx)
            vv = self.eval(v, st, ctx)
            d = dset(d, self.key(kv, st), vv)
        return self.alloc(st, ('dict', d))

    def key(self, k, st):
        return k

    def e_Lambda(self, n, st, ctx):
        return self.closure(n, st, ctx)

    def closure(self, n, st, ctx, name='<lambda>'):
        cid = self.new_id()
        a = n.args
        defaults = [self.eval(d, st, ctx) for d in a.defaults]
        kwd = {p.arg: (self.eval(d, st, ctx) if d is not None else None) for p, d in zip(a.kwonlyargs, a.kw_defaults)}
        self.clos[cid] = dict(node=n, module=ctx.module, cls=ctx.cls, fid=ctx.fid, defaults=defaults, kwd=kwd, name=name,
                              func=ctx.func, selfv=ctx.selfv, globals=set(ctx.globals_))
        return mk('clo', cid)

    def e_IfExp(self, n, st, ctx):
        c = self.cond(n.test, st, ctx)
        if st.dead:
            return mk('raise', 'dead')
        if c.op == 'unk':
            return c
        return self.fork(st, c, lambda s: self.eval(n.body, s, ctx), lambda s: self.eval(n.orelse, s, ctx))

    def cond(self, n, st, ctx):
        return self.truth(self.eval(n, st, ctx), st)

    def truth(self, t, st):
        op = t.op
        if op in ('pos', 'zero', 'eq', 'not', 'in', 'exists', 'truth', 'isinst', 'unk') or t is TRUE or t is FALSE:
            return t
        if op == 'ite':
            return ite(t.args[0], self.truth(t.args[1], st), self.truth(t.args[2], st))
        if t is NONE:
            return FALSE
        if op == 'num':
            return boolc(t.args[0] != 0)
        if op == 'const':
            return boolc(bool(t.args[0]))
        if op in ('enum', 'fn', 'clo', 'bm', 'cls', 'pyfn', 'lam', 'partial'):
            return TRUE
        if op == 'rec':
            return TRUE
        if op in ('list', 'tuple', 'comp', 'filt', 'flat', 'concat', 'sortedk'):
            return pos(slen(t))
        if op in ('dict', 'dset', 'dictcomp'):
            return pos(slen(t))
        if op == 'arr':
            l = t.args[0]
            while l.op == 'list' and len(l.args) == 1:
                l = l.args[0]
            if l.op != 'list' and not nd.isseq(l):
                return self.truth(l, st)
            if l.op == 'list':
                return self.fail(st, 'ValueError')
            return unk('truth of an array')
        if op == 'ref':
            o = self.obj(st, t)
            if o[0] in ('list', 'set', 'dict'):
                return pos(slen(o[1]))
            if o[0] == 'inst':
                c = self.cls(o[1])
                for mname in ('__bool__', '__len__'):
                    fi = c.find(mname)
                    if fi is not None:
                        return self.truth(self.call_fn(fi, [t], {}, st), st)
                return TRUE
        ty = self.ty(t)
        if ty in ('num', 'int', 'float', 'pos', 'nonneg', 'pos_int') or op == 'poly':
            return not_(zero(t))
        if ty == 'bool':
            return t if op in ('sym', 'attr', 'call', 'at', 'get') else mk('truth', t)
        if ty and ty.startswith('seq'):
            return pos(slen(t))
        if ty and (ty.startswith('dict')):
            return pos(mk('len', t))
        if ty in ('date', 'datetime'):
            return TRUE
        if ty and ty.startswith('Optional:') and ty[9:] in ('date', 'datetime'):
            return not_(eq(t, NONE))
        if ty and ty.startswith('obj:'):
            return TRUE
        if op == 'raise':
            return TRUE
        return mk('truth', t)

    def e_BoolOp(self, n, st, ctx):
        is_and = isinstance(n.op, ast.And)

        def go(i, s):
            v = self.eval(n.values[i], s, ctx)
            if i == len(n.values) - 1 or s.dead:
                return v
            c = self.truth(v, s)
            if c.op == 'unk':
                return c
            if is_and:
                isb = self.is_bool(v)
                return self.fork(s, c, lambda s2: go(i + 1, s2), lambda s2: FALSE if isb else v)
            isb = self.is_bool(v)
            return self.fork(s, c, lambda s2: TRUE if isb else v, lambda s2: go(i + 1, s2))
        r = go(0, st)
        return r

    def is_bool(self, v):
        return v is TRUE or v is FALSE or v.op in ('pos', 'zero', 'eq', 'not', 'in', 'exists', 'truth', 'isinst') or \
            (v.op == 'ite' and self.is_bool(v.args[1]) and self.is_bool(v.args[2])) or self.ty(v) == 'bool'

    def e_UnaryOp(self, n, st, ctx):
        v = self.eval(n.operand, st, ctx)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v, st))
        if isinstance(n.op, ast.USub):
            return self.dist(v, st, lambda x, s: self.lib.neg(x, s))
        if isinstance(n.op, ast.UAdd):
            return v
        return unk('operator ~')

    def e_BinOp(self, n, st, ctx):
        a = self.eval(n.left, st, ctx)
        b = self.eval(n.right, st, ctx)
        return self.binop(type(n.op).__name__, a, b, st, ctx)

    def binop(self, op, a, b, st, ctx):
        if st.dead:
            return mk('raise', 'dead')
        return self.dist(a, st, lambda x, s: self.dist(b, s, lambda y, s2: self.lib.binop(op, x, y, s2, ctx)))

    def e_Compare(self, n, st, ctx):
        left = self.eval(n.left, st, ctx)
        res = TRUE
        for op, rn in zip(n.ops, n.comparators):
            right = self.eval(rn, st, ctx)
            if st.dead:
                return mk('raise', 'dead')
            c = self.compare(type(op).__name__, left, right, st, ctx)
            if c.op == 'arr' and len(n.ops) > 1:
                c = self.truth(c, st)
            res = c if res is TRUE else and_(res, c)
            left = right
        return res

    def compare(self, op, a, b, st, ctx):
        if op == 'NotEq':
            return not_(self.truth(self.compare('Eq', a, b, st, ctx), st))
        if op == 'IsNot':
            return not_(self.compare('Is', a, b, st, ctx))
        if op == 'NotIn':
            return not_(self.truth(self.compare('In', a, b, st, ctx), st))
        return self.dist(a, st, lambda x, s: self.dist(b, s, lambda y, s2: self.lib.compare(op, x, y, s2, ctx)))

    def e_Attribute(self, n, st, ctx):
        v = self.eval(n.value, st, ctx)
        if st.dead:
            return mk('raise', 'dead')
        r = self.getattr(v, n.attr, st, ctx)
        if st.dead and ctx.module.name.startswith('%') and n.attr.startswith('_') and not n.attr.startswith('__'):
            raise Undecided(f'private attribute {n.attr}')      # a name of the implementation, not an interface
        return r

    def e_NamedExpr(self, n, st, ctx):
        v = self.eval(n.value, st, ctx)
        self.frame_set(st, ctx.fid, n.target.id, v)
        return v

    def e_Starred(self, n, st, ctx):
        return unk('starred expression')

    def e_Subscript(self, n, st, ctx):
        v = self.eval(n.value, st, ctx)
        if isinstance(n.slice, ast.Slice):
            k = self.slice_term(n.slice, st, ctx)
        else:
            k = self.eval(n.slice, st, ctx)
        if st.dead:
            return mk('raise', 'dead')
        return self.getitem(v, k, st, ctx)

    def e_Slice(self, n, st, ctx):
        return self.slice_term(n, st, ctx)

    def slice_term(self, n, st, ctx):
        ev = lambda x: self.eval(x, st, ctx) if x is not None else NONE
        return mk('slicev', ev(n.lower), ev(n.upper), ev(n.step))

    def e_Await(self, n, st, ctx):
        return unk('await')

    def e_Yield(self, n, st, ctx):
        v = self.eval(n.value, st, ctx) if n.value is not None else NONE
        cur = self.frame_get(st, ctx.fid, '%yield')
        if cur is None:
            return unk('yield outside generator')
        self.frame_set(st, ctx.fid, '%yield', concat(cur, seq(v)))
        return NONE

    def e_YieldFrom(self, n, st, ctx):
        s = self.iter_seq(self.eval(n.value, st, ctx), st, ctx)
        cur = self.frame_get(st, ctx.fid, '%yield')
        self.frame_set(st, ctx.fid, '%yield', concat(cur, s))
        return NONE

    # comprehensions: evaluated as loops appending to a fresh accumulator
    def e_ListComp(self, n, st, ctx):
        return self.alloc(st, ('list', self.comprehension(n, st, ctx, lambda s, c: seq(self.eval(n.elt, s, c)))))

    def e_GeneratorExp(self, n, st, ctx):
        return self.comprehension(n, st, ctx, lambda s, c: seq(self.eval(n.elt, s, c)))

    def e_SetComp(self, n, st, ctx):
        return self.alloc(st, ('set', self.comprehension(n, st, ctx, lambda s, c: seq(self.eval(n.elt, s, c)))))

    def e_DictComp(self, n, st, ctx):
        pairs = self.comprehension(n, st, ctx, lambda s, c: seq(mk('tuple', self.eval(n.key, s, c), self.eval(n.value, s, c))))
        return self.alloc(st, ('dict', self.lib.dict_from_pairs(pairs, st)))

    def comprehension(self, n, st, ctx, leaf):
        fid = self.new_id()
        st.heap[fid] = ('frame', {'%acc': EMPTY}, ctx.fid)
        c2 = Ctx(fid, ctx.func, ctx.module, ctx.cls, ctx.depth, ctx.selfv)
        c2.globals_ = ctx.globals_

        def gen(i, s):
            if s.dead:
                return
            if i == len(n.generators):
                cur = self.frame_get(s, fid, '%acc')
                x = leaf(s, c2)
                cur = self.frame_get(s, fid, '%acc')
                self.frame_set(s, fid, '%acc', concat(cur, x))
                return
            g = n.generators[i]
            # the first iterable is evaluated in the enclosing scope
            it = self.iter_seq(self.eval(g.iter, s, ctx if i == 0 else c2), s, c2)
            if s.dead:
                return

            def body(s2, elem):
                self.assign(g.target, elem, s2, c2)
                conds = list(g.ifs)

                def rest(s3):
                    gen(i + 1, s3)
                    return NONE
                def chk(j, s3):
                    if s3.dead:
                        return NONE
                    if j == len(conds):
                        return rest(s3)
                    cc = self.cond(conds[j], s3, c2)
                    if cc.op == 'unk':
                        raise Undecided(cc.args[0])
                    return self.fork(s3, cc, lambda s4: chk(j + 1, s4), lambda s4: NONE)
                chk(0, s2)
                return Out(fall=(TRUE, s2))
            o = self.loop_seq(it, s, c2, body)
            if o.fall is None:
                s.dead = True
                return
            s.become(o.fall[1])
        gen(0, st)
        if st.dead:
            return mk('raise', 'dead')
        return self.frame_get(st, fid, '%acc')

    # ------------------------------------------------------------------ attributes
    def getattr(self, v, name, st, ctx):
        return self.dist(v, st, lambda x, s: self._getattr(x, name, s, ctx))

    def inst_attr(self, v, name):
        """attribute of an instance value, when reading it has no effect and cannot fail"""
        for k, x in zip(v.args[1::2], v.args[2::2]):
            if k.args[0] == name:
                return x
        fi = self.cls(v.args[0]).find(name)
        if fi is None or fi.kind != 'property' or len(fi.node.body) > 8:
            return None
        st = State({}, [], Facts())
        try:
            r = self.freeze(self._getattr(v, name, st, None), st)
        except (Undecided, RecursionError):
            return None
        return None if st.dead or st.guards or has_unk(r) or r.op == 'attr' else r

    def _getattr(self, v, name, st, ctx):
        op = v.op
        if op == 'unk':
            return v
        if op == 'raise':
            return v
        if op == 'ref':
            o = self.obj(st, v)
            if o[0] == 'inst':
                a = o[2]
                if name in a:
                    x = a[name]
                    if x.op == 'ite' or (x.op == 'const' and x.args[0] == 'unset#'):
                        x = self._prune_unset(x, st, lambda s: self.class_getattr(self.cls(o[1]), v, name, s, ctx, inst=True))
                    return x
                return self.class_getattr(self.cls(o[1]), v, name, st, ctx, inst=True)
            if o[0] == 'list' and name in ('shape', 'size', 'ndim', 'T') and (o[1].op == 'arr' or self.ty(o[1]) == 'ndarray'):
                return self.lib.value_attr(o[1], name, st, ctx)
            if o[0] in ('list', 'dict', 'set'):
                return mk('meth', v, name)
        if op == 'inst':
            args = v.args[1:]
            for k, x in zip(args[0::2], args[1::2]):
                if k.args[0] == name:
                    return x
            return self.class_getattr(self.cls(v.args[0]), v, name, st, ctx, inst=True)
        if op == 'rec':
            c = self.cls(v.args[0])
            for (f, d, m), x in zip(c.fields(), v.args[1:]):
                if f == name:
                    return x
            if name in ('_replace', '_asdict', '_fields'):
                return mk('meth', v, name)
            return self.class_getattr(c, v, name, st, ctx, inst=True)
        if op == 'cls':
            c = self.cls(v.args[0])
            if name == '__name__':
                return const(c.name)
            if c.is_enum and name in c.attrs and not name.startswith('_'):
                return mk('enum', c.key, name)
            fi = c.find(name)
            if fi is not None:
                if fi.kind == 'class':
                    return mk('bm', v, self.method_term(fi))
                return self.method_term(fi)
            a = self.class_attr(c, name, st)
            if a is not None:
                return a
            if c.is_enum and name in ('__members__',):
                return mk('dict', *[x for mm in self.enum_members(c.key) for x in (const(mm.args[1]), mm)])
            if c.ext_bases() and not c.is_enum and any(b not in KNOWN_BASES for b in c.ext_bases()):
                return unk(f'attribute {name} of external base')
            return self.fail(st, 'AttributeError')
        if op == 'enum':
            if name == 'value':
                return self.enum_value(v)
            if name == 'name':
                return const(v.args[1])
            c = self.cls(v.args[0])
            return self.class_getattr(c, v, name, st, ctx, inst=True)
        if op == 'mod':
            m = self.p.modules[v.args[0]]
            o = self.shared(st, '%g:' + m.name)
            if o is not None and name in o[1]:
                return o[1][name]
            r = self.p.resolve_name(m, name)
            x = self.resolved(r, name) if r is not None else None
            if x is None:
                sub = v.args[0] + '.' + name
                if sub in self.p.modules:
                    return mk('mod', sub)
                return self.fail(st, 'AttributeError')
            return x
        if op == 'pyfn':
            return self.lib.ext_attr(v, name)
        if op == 'super':
            c = self.cls(v.args[0])
            selfv = v.args[1]
            start = self.cls(v.args[2]) if len(v.args) > 2 else c
            mro = start.mro()
            i = mro.index(c) if c in mro else -1
            for k in mro[i + 1:]:
                if name in k.methods:
                    fi = k.methods[name]
                    if fi.kind == 'property':
                        return self.call_fn(fi, [selfv], {}, st)
                    if fi.kind == 'static':
                        return self.method_term(fi)
                    return mk('bm', selfv, self.method_term(fi))
            return mk('pyfn', 'object.' + name)
        if v is NONE:
            return self.fail(st, 'AttributeError')
        return self.lib.value_attr(v, name, st, ctx)

    def _prune_unset(self, x, st, otherwise):
        if x.op == 'const' and x.args[0] == 'unset#':
            return otherwise(st)
        if x.op == 'ite':
            has = contains(x, lambda t: t.op == 'const' and t.args[0] == 'unset#')
            if has:
                return self.fork(st, x.args[0], lambda s: self._prune_unset(x.args[1], s, otherwise), lambda s: self._prune_unset(x.args[2], s, otherwise))
        return x

    def method_term(self, fi):
        if fi.decorators:
            return self.decorated(fi)
        return mk('fn', fi.module.name, fi.qual)

    def class_getattr(self, c, v, name, st, ctx, inst):
        fi = c.find(name)
        if fi is not None:
            if fi.kind == 'property':
                r = self.call_fn(fi, [v], {}, st)
                if getattr(fi, 'kept', False) and inst and v.op == 'ref' and not st.dead:
                    o = self.obj(st, v)
                    st.heap[v.args[0]] = ('inst', o[1], dict(o[2]) | {name: r})
                return r
            if fi.kind == 'static':
                return self.method_term(fi)
            if fi.kind == 'class':
                return mk('bm', mk('cls', c.key), self.method_term(fi))
            return mk('bm', v, self.method_term(fi))
        a = self.class_attr(c, name, st)
        if a is not None:
            return a
        if name == '__class__':
            return mk('cls', c.key)
        if name == '__dict__':
            return unk('__dict__')
        g = c.find('__getattr__')
        if g is not None:
            return self.call_fn(g, [v, const(name)], {}, st)
        if any(b not in KNOWN_BASES for b in c.ext_bases()):
            return unk(f'attribute {name} of external base of {c.name}')
        if name in MIXIN_METHODS and any(b in ABC_BASES for b in c.ext_bases()):
            return mk('meth', v, name)
        if c.module.name.startswith('%'):
            raise Undecided(f'attribute {name} of a stand-in')
        return self.fail(st, 'AttributeError')

    def setattr(self, v, name, val, st, ctx):
        if v.op == 'ite':
            def f(t):
                return lambda s: (self.setattr(t, name, val, s, ctx), NONE)[1]
            self.fork(st, v.args[0], f(v.args[1]), f(v.args[2]))
            return
        if v.op == 'ref':
            o = self.obj(st, v)
            if o[0] == 'inst':
                c = self.cls(o[1])
                fi = c.find_setter(name)
                if fi is not None:
                    self.call_fn(fi, [v, val], {}, st)
                    return
                p = c.find(name)
                if p is not None and p.kind == 'property':
                    self.fail(st, 'AttributeError')
                    return
                o = self.obj(st, v)
                d = dict(o[2])
                d[name] = val
                st.heap[v.args[0]] = ('inst', o[1], d)
                return
        if v.op == 'rec':
            c = self.cls(v.args[0])
            if c.is_namedtuple or 'frozen' in c.dc_opts:
                self.fail(st, 'AttributeError')
                return
            raise Undecided('mutation of a record value')
        if v is NONE:
            self.fail(st, 'AttributeError')
            return
        if v.op == 'cls':
            c = self.cls(v.args[0])
            if not c.is_enum and c.find(name) is None:
                self.shared_set(st, '%c:' + c.key, name, val, self.class_attr(c, name, st))
                return
        if v.op == 'mod' and v.args[0] in self.p.modules:
            m = self.p.modules[v.args[0]]
            if name in m.assigns and name not in m.imports:
                self.shared_set(st, '%g:' + m.name, name, val, self.module_const(m, name))
                return
        raise Undecided(f'attribute store .{name} on {v.op}')

    # ------------------------------------------------------------------ containers
    def content(self, v, st):
        """container contents as a term"""
        if v.op == 'ref':
            o = self.obj(st, v)
            if o[0] in ('list', 'dict', 'set'):
                return o[1]
            return v
        if v.op == 'ite':
            return ite(v.args[0], self.content(v.args[1], st), self.content(v.args[2], st))
        return v

    def iter_seq(self, v, st, ctx):
        """sequence of elements produced by iterating v"""
        return self.dist(v, st, lambda x, s: self._iter_seq(x, s, ctx))

    def ntuple(self, v, st, ctx):
        """components of an opaque instance of a named tuple class"""
        ty = self.ty(v)
        if v.op in ('ref', 'rec', 'inst') or not ty or not ty.startswith(('obj:', 'rec:')):
            return None
        c = self.p.find_class(ty[4:]) if ty.startswith('obj:') else self.cls(ty[4:])
        if c is None or not c.is_namedtuple:
            return None
        return [self.getattr(v, n, st, ctx) for n, _, _ in c.fields()]

    def _iter_seq(self, v, st, ctx):
        op = v.op
        nt = self.ntuple(v, st, ctx)
        if nt is not None:
            return seq(*nt)
        if op in ('unk', 'raise'):
            return v if op == 'unk' else EMPTY
        if op == 'ref':
            o = self.obj(st, v)
            if o[0] == 'list':
                return norm_seq(o[1])
            if o[0] == 'set':
                return self.lib.set_seq(o[1], st)
            if o[0] == 'dict':
                return dkeys(o[1])
            c = self.cls(o[1])
            fi = c.find('__iter__')
            if fi is not None:
                r = self.call_fn(fi, [v], {}, st)
                if st.dead:
                    return EMPTY
                if r.op == 'itemsview' or r.op == 'ref' and r is not v and self.obj(st, r)[0] in ('list', 'dict', 'set'):
                    # __iter__ must return an iterator, not a container or view
                    self.fail(st, 'TypeError')
                    return EMPTY
                if r is v:
                    return unk('self-iterator')
                return self._iter_seq(r, st, ctx) if r.op != 'ite' else self.iter_seq(r, st, ctx)
            if c.find('__getitem__') is not None and c.find('__len__') is not None:
                n = self.call_fn(c.find('__len__'), [v], {}, st)
                k = as_int(n)
                if k is not None:
                    return seq(*[self.call_fn(c.find('__getitem__'), [v, num(i)], {}, st) for i in range(k)])
                return unk('iteration by index')
            self.fail(st, 'TypeError')
            return EMPTY
        if op == 'inst':
            return self._iter_seq(self.materialise(v, st), st, ctx)
        if op == 'iter':
            return norm_seq(v.args[0])
        if op == 'itemsview':
            return norm_seq(v.args[0])
        if op == 'setof':
            return self.lib.set_seq(v.args[0], st)
        if op in ('dict', 'dset', 'dictcomp'):
            return dkeys(v)
        if op == 'cls':
            c = self.cls(v.args[0])
            if c.is_enum:
                return seq(*self.enum_members(c.key))
        if op in ('num', 'poly', 'fn', 'clo', 'bm', 'enum', 'pos', 'zero') or v is NONE or v is TRUE or v is FALSE:
            if op == 'poly' and self.ty(v) == 'ndarray':
                return v
            self.fail(st, 'TypeError')
            return EMPTY
        if op == 'arr':
            s = norm_seq(v.args[0])
            return self.lib.rows(s)
        ty = self.ty(v)
        if ty and ty.startswith('dict'):
            return dkeys(v)
        return norm_seq(v)

    def materialise(self, v, st):
        """heap object initialised from an instance value"""
        d = {}
        args = v.args[1:]
        for k, x in zip(args[0::2], args[1::2]):
            d[k.args[0]] = self._unfreeze(x, st)
        return self.alloc(st, ('inst', v.args[0], d))

    def _unfreeze(self, x, st):
        if x.op in ('list', 'comp', 'filt', 'flat', 'concat', 'sortedk'):
            return self.alloc(st, ('list', x))
        if x.op in ('dict', 'dset', 'dictcomp'):
            return self.alloc(st, ('dict', x))
        if x.op == 'setof':
            return self.alloc(st, ('set', x.args[0]))
        return x

    def getitem(self, v, k, st, ctx):
        return self.dist(v, st, lambda x, s: self._getitem(x, k, s, ctx))

    def _getitem(self, v, k, st, ctx):
        op = v.op
        if op in ('unk', 'raise'):
            return v
        if op == 'ref':
            o = self.obj(st, v)
            if o[0] == 'inst':
                c = self.cls(o[1])
                fi = c.find('__getitem__')
                if fi is None:
                    return self.fail(st, 'TypeError')
                return self.call_fn(fi, [v, k], {}, st)
            if o[0] == 'dict':
                return self.dict_get(o[1], k, st, ctx)
            if o[0] == 'list':
                r = self.seq_get(o[1], k, st, ctx)
                if k.op == 'slicev':
                    return self.alloc(st, ('list', r))
                return r
            return self.fail(st, 'TypeError')
        if op in ('dict', 'dset', 'dictcomp'):
            return self.dict_get(v, k, st, ctx)
        if op == 'cls':
            c = self.cls(v.args[0])
            if c.is_enum and k.op == 'const':
                return mk('enum', c.key, k.args[0])
            return v     # generic alias
        if op == 'pyfn':
            return v
        if op == 'inst':
            return self._getitem(self.materialise(v, st), k, st, ctx)
        if op == 'const' and isinstance(v.args[0], str):
            return self.lib.str_item(v, k, st)
        if v is NONE or op in ('num', 'enum', 'fn', 'clo', 'bm'):
            return self.fail(st, 'TypeError')
        ty = self.ty(v)
        if ty == 'str':
            return self.lib.str_item(v, k, st)
        if op == 'call' and v.args[0].op == 'pyfn' and v.args[0].args[0] == 'scipy.optimize.root' and k.op == 'const':
            return self.lib.root_field(v, k.args[0])
        if op == 'call' and v.args[0].op == 'pyfn' and v.args[0].args[0] == 'scipy.optimize.minimize' and k.op == 'const':
            return self.lib.minimum_field(v, k.args[0])
        nt = self.ntuple(v, st, ctx)
        if nt is not None:
            return self.seq_get(seq(*nt), k, st, ctx)
        if ty and ty.startswith('dict'):
            return self.dict_get(v, k, st, ctx)
        return self.seq_get(v, k, st, ctx)

    def dict_get(self, d, k, st, ctx):
        k = self.lib.hash_key(d, k, st)
        if st.dead:
            return mk('raise', 'dead')
        if d.op in ('dict', 'dset', 'dictcomp', 'ite') or 'KeyError' in ctx.in_try or 'LookupError' in ctx.in_try or 'Exception' in ctx.in_try:
            self.raise_(st, not_(member(k, dkeys(d) if d.op not in ('dict', 'dset', 'dictcomp') else self._kseq(d))), 'KeyError')
            if st.dead:
                return mk('raise', 'KeyError')
        r = dget(d, k)
        return self._strip_raise(r)

    def _kseq(self, d):
        return d if d.op in ('dict', 'dset') else dkeys(d)

    def _strip_raise(self, r):
        if r.op == 'ite':
            if r.args[2].op == 'raise':
                return self._strip_raise(r.args[1])
            if r.args[1].op == 'raise':
                return self._strip_raise(r.args[2])
            return ite(r.args[0], self._strip_raise(r.args[1]), self._strip_raise(r.args[2]))
        return r

    def nonneg(self, x, st):
        if as_int(x) is None and st.facts.decide(pos(neg(x))) is True:
            raise Undecided('negative array index')
        return x

    def bounds(self, k, s, st):
        """slice with symbolic bounds known to be negative counted from the start"""
        out = []
        for x in k.args[:2]:
            if x is not NONE and as_int(x) is None and st.facts.decide(pos(neg(x))) is True:
                x = add(slen(norm_seq(s)), x)
            out.append(x)
        return mk('slicev', *out, k.args[2])

    def seq_get(self, s, k, st, ctx):
        if k.op == 'slicev':
            k = self.bounds(k, s, st)
            if s.op == 'arr':
                return mk('arr', sslice(s.args[0], *k.args))
            return sslice(s, *k.args)
        if s.op == 'arr' and (k.op == 'tuple' or k is NONE):
            return self.lib.nd_index(s, k, st, ctx)
        if s.op == 'arr':
            r = at(norm_seq(s.args[0]), k)
            if r.op == 'raise':
                return self.fail(st, r.args[0])
            return self.lib.wrap_row(r)
        if k.op == 'tuple' or self.ty(s) == 'ndarray':
            return mk('at', s, k)
        if k.op in ('enum',) or (k.op == 'const' and isinstance(k.args[0], str)):
            if s.op in ('list', 'comp', 'concat', 'tuple'):
                return self.fail(st, 'TypeError')
            return mk('at', s, k)
        if 'IndexError' in ctx.in_try or 'LookupError' in ctx.in_try or 'Exception' in ctx.in_try:
            n = slen(s)
            self.raise_(st, or_(not_(lt(k, n)), lt(add(k, n), ZERO)), 'IndexError')
            if st.dead:
                return mk('raise', 'IndexError')
        if k.op != 'num' and self.ty(k) not in ('date',):
            # negative symbolic index
            d = st.facts.decide(lt(k, ZERO))
            if d is True:
                k = add(slen(s), k)
        ss = norm_seq(s)
        if ss.op == 'list' and k.op == 'poly' or ss.op == 'list' and lin.is_int_atom(k):
            # explicit sequence, symbolic index: try to decide the position
            for j in range(len(ss.args)):
                if st.facts.decide(eq(k, num(j))) is True:
                    return ss.args[j]
                if st.facts.decide(eq(k, num(j - len(ss.args)))) is True:
                    return ss.args[j]
        r = at(ss, k)
        if contains(r, lambda t: t.op == 'raise') and r.op in ('raise', 'ite'):
            if r.op == 'raise':
                return self.fail(st, r.args[0])

            def g(x, s2):
                return self.fail(s2, x.args[0]) if x.op == 'raise' else x
            return self.dist(r, st, g)
        return r

    def setitem(self, v, k, val, st, ctx):
        if v.op == 'ite':
            def f(t):
                return lambda s: (self.setitem(t, k, val, s, ctx), NONE)[1]
            self.fork(st, v.args[0], f(v.args[1]), f(v.args[2]))
            return
        if v.op == 'ref':
            o = self.obj(st, v)
            if o[0] == 'inst':
                fi = self.cls(o[1]).find('__setitem__')
                if fi is None:
                    self.fail(st, 'TypeError')
                    return
                self.call_fn(fi, [v, k, val], {}, st)
                return
            if o[0] == 'dict':
                k = self.lib.hash_key(o[1], k, st)
                if not st.dead:
                    st.heap[v.args[0]] = ('dict', dset(o[1], k, val))
                return
            if o[0] == 'list':
                s = o[1]
                isarr = s.op == 'arr'
                base = norm_seq(s)
                if isarr:
                    r = self.lib.nd_store(s, k, val, st, ctx)
                    st.heap[v.args[0]] = ('list', r)
                    return
                if k.op == 'slicev':
                    if base.op == 'list' and all(x is NONE or as_int(x) is not None for x in k.args):
                        lst = list(base.args)
                        new = self.iter_seq(val, st, ctx)
                        if new.op == 'list':
                            sl = slice(*[None if x is NONE else as_int(x) for x in k.args])
                            lst[sl] = list(new.args)
                            st.heap[v.args[0]] = ('list', mk('list', *lst))
                            return
                    if k.args[2] is NONE:
                        new = self.iter_seq(val, st, ctx)
                        if st.dead:
                            return
                        k = self.bounds(k, base, st)
                        st.heap[v.args[0]] = ('list', concat(EMPTY if k.args[0] is NONE else sslice(base, NONE, k.args[0], NONE), norm_seq(new),
                                                             EMPTY if k.args[1] is NONE else sslice(base, k.args[1], NONE, NONE)))
                        return
                    raise Undecided('slice assignment')
                j = as_int(k)
                if base.op == 'list':
                    if j is None:
                        for q in range(len(base.args)):
                            if st.facts.decide(eq(k, num(q))) is True:
                                j = q
                    if j is not None:
                        if not -len(base.args) <= j < len(base.args):
                            self.fail(st, 'IndexError')
                            return
                        lst = list(base.args)
                        lst[j] = val
                        st.heap[v.args[0]] = ('list', mk('list', *lst))
                        return
                    st.heap[v.args[0]] = ('list', mk('list', *[ite(eq(k, num(q)), val, x) for q, x in enumerate(base.args)]))
                    return
                if base.op == 'ite':
                    def put(t):
                        def g(s):
                            s.heap[v.args[0]] = ('list', t)
                            self.setitem(v, k, val, s, ctx)
                            return NONE
                        return g
                    self.fork(st, base.args[0], put(base.args[1]), put(base.args[2]))
                    return
                ix = indexable(base)
                if ix is not None:
                    n, f = ix
                    kk = k if j is None or j >= 0 else add(n, k)
                    st.heap[v.args[0]] = ('list', comp(n, lambda i: ite(eq(i, kk), val, f(i))))
                    return
                raise Undecided('list store')
        if v is NONE or v.op in ('tuple', 'rec', 'num'):
            self.fail(st, 'TypeError')
            return
        raise Undecided(f'item store on {v.op}')

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st, ctx):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and self.frame_get(st, ctx.fid, 'super') is None:
            if n.args:
                c = self.eval(n.args[0], st, ctx)
                sv = self.eval(n.args[1], st, ctx)
                return self.super_of(c.args[0], sv, st)
            sv = self.first_param(st, ctx)
            if ctx.cls is None or sv is None:
                return unk('super')
            return self.super_of(ctx.cls.key, sv, st)
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'globals', 'vars', 'eval', 'exec'):
            return unk(n.func.id)
        f = self.eval(n.func, st, ctx)
        args, kwargs = [], {}
        star_unk = False
        for a in n.args:
            if isinstance(a, ast.Starred):
                s = self.iter_seq(self.eval(a.value, st, ctx), st, ctx)
                if s.op == 'list':
                    args += list(s.args)
                else:
                    args.append(mk('star', s))
            else:
                args.append(self.eval(a, st, ctx))
        for k in n.keywords:
            v = self.eval(k.value, st, ctx)
            if k.arg is None:
                d = self.content(v, st)
                if d.op == 'dict':
                    for kk, vv in zip(d.args[0::2], d.args[1::2]):
                        kwargs[kk.args[0]] = vv
                else:
                    kwargs['**'] = d
            else:
                kwargs[k.arg] = v
        if st.dead:
            return mk('raise', 'dead')
        return self.call(f, args, kwargs, st, n, ctx)

    def super_of(self, key, sv, st):
        dyn = None
        if sv.op == 'ref':
            o = self.obj(st, sv)
            if o[0] == 'inst':
                dyn = o[1]
        elif sv.op == 'cls':
            dyn = sv.args[0]
        return mk('super', key, sv, dyn) if dyn else mk('super', key, sv)

    def first_param(self, st, ctx):
        return ctx.selfv

    def call(self, f, args, kwargs, st, node, ctx=None):
        if st.dead:
            return mk('raise', 'dead')
        return self.dist(f, st, lambda x, s: self._call(x, args, kwargs, s, node, ctx))

    def _call(self, f, args, kwargs, st, node, ctx):
        op = f.op
        self.step()
        if op == 'unk':
            return f
        if op == 'raise':
            return f
        if op in ('fn', 'rawfn'):
            fi = self.fn_info(f)
            return self.call_fn(fi, args, kwargs, st)
        if op == 'clo':
            return self.call_clo(f, args, kwargs, st)
        if op == 'bm':
            return self.call(f.args[1], [f.args[0]] + args, kwargs, st, node, ctx)
        if op == 'partial':
            pre = list(f.args[1].args)
            kw = dict(zip([k.args[0] for k in f.args[2].args[0::2]], f.args[2].args[1::2]))
            kw.update(kwargs)
            return self.call(f.args[0], pre + args, kw, st, node, ctx)
        if op == 'cls':
            return self.instantiate(self.cls(f.args[0]), args, kwargs, st)
        if op == 'lam':
            vs = binder_parts(f)[0]
            if len(vs) != len(args) or kwargs:
                return unk('lambda call')
            return open_binder(f, args)[1][0]
        if op == 'pyfn':
            return self.lib.ext_call(f.args[0], args, kwargs, st, ctx)
        if op == 'meth':
            return self.lib.method(f.args[0], f.args[1], args, kwargs, st, ctx)
        if op == 'ref':
            o = self.obj(st, f)
            if o[0] == 'inst':
                fi = self.cls(o[1]).find('__call__')
                if fi is not None:
                    return self.call_fn(fi, [f] + args, kwargs, st)
            return self.fail(st, 'TypeError')
        if op == 'inst':
            return self._call(self.materialise(f, st), args, kwargs, st, node, ctx)
        if f is NONE or op in ('num', 'poly', 'list', 'tuple', 'dict', 'rec', 'enum', 'const') or (op == 'const'):
            return self.fail(st, 'TypeError')
        if op == 'attr':
            return self.opaque_method(f, args, kwargs, st)
        ty = self.ty(f)
        if ty and ty.startswith('obj:'):
            c = self.p.find_class(ty[4:])
            fi = c.find('__call__') if c else None
            if fi is not None:
                b = self.bind_args(fi.node.args, [f] + args, kwargs, st, fi, soft=True)
                if b is not None:
                    vals = [self.freeze(b[p.arg], st) for p in fi.node.args.args[1:]]
                    return mk('call', f, *strip_none(vals))
        return mk('call', f, *[self.freeze(a, st) for a in args], *[x for k in sorted(kwargs) for x in (const(k + '='), self.freeze(kwargs[k], st))])

    def opaque_method(self, f, args, kwargs, st):
        recv, name = f.args
        ty = self.ty(recv)
        vals = None
        if ty and ty.startswith('obj:'):
            c = self.p.find_class(ty[4:])
            fi = c.find(name) if c else None
            if fi is not None and fi.kind != 'property':
                pre = [recv] if fi.kind == 'method' else ([mk('cls', c.key)] if fi.kind == 'class' else [])
                b = self.bind_args(fi.node.args, pre + args, kwargs, st, fi, soft=True)
                if b is not None:
                    ps = [p.arg for p in fi.node.args.posonlyargs + fi.node.args.args][len(pre):] + [p.arg for p in fi.node.args.kwonlyargs]
                    vals = strip_none([self.freeze(b[p], st) for p in ps])
        if vals is None:
            vals = [self.freeze(a, st) for a in args] + [x for k in sorted(kwargs) for x in (const(k + '='), self.freeze(kwargs[k], st))]
        return mk('call', f, *vals)

    def bind_args(self, a, args, kwargs, st, fi, soft=False, defaults=None, kwd=None, dctx=None):
        """returns name -> value or None (after recording a TypeError)"""
        params = [p.arg for p in a.posonlyargs + a.args]
        b = {}
        if any(x.op == 'star' for x in args):
            if soft:
                return None
            # distribute an opaque starred sequence over the remaining positional parameters when counts are forced
            i = [j for j, x in enumerate(args) if x.op == 'star'][0]
            s = args[i].args[0]
            rest = args[i + 1:]
            need = len([p for p in params if p not in kwargs]) - i - len(rest)
            args = args[:i] + [at(s, num(j)) for j in range(max(need, 0))] + rest
            if any(x.op == 'star' for x in args):
                raise Undecided('star arguments')
        if '**' in kwargs:
            if soft:
                return None
            raise Undecided('** arguments')
        extra = []
        for i, v in enumerate(args):
            if i < len(params):
                b[params[i]] = v
            else:
                extra.append(v)
        if extra and not a.vararg:
            if soft:
                return None
            self.fail(st, 'TypeError')
            return None
        if a.vararg:
            b[a.vararg.arg] = mk('tuple', *extra)
        kwnames = {p.arg for p in a.kwonlyargs}
        xk = []
        for k, v in kwargs.items():
            if k in params or k in kwnames:
                if k in b:
                    if soft:
                        return None
                    self.fail(st, 'TypeError')
                    return None
                b[k] = v
            elif a.kwarg:
                xk += [const(k), v]
            else:
                if soft:
                    return None
                self.fail(st, 'TypeError')
                return None
        if a.kwarg:
            b[a.kwarg.arg] = self.alloc(st, ('dict', mk('dict', *xk)))
        nd = len(a.defaults)
        for i, p in enumerate(params):
            if p not in b:
                j = i - (len(params) - nd)
                if j >= 0:
                    b[p] = defaults[j] if defaults is not None else self.default(fi, a.defaults[j])
                else:
                    if soft:
                        return None
                    self.fail(st, 'TypeError')
                    return None
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in b:
                if d is None:
                    if soft:
                        return None
                    self.fail(st, 'TypeError')
                    return None
                b[p.arg] = kwd[p.arg] if kwd is not None else self.default(fi, d)
        return b

    def default(self, fi, expr):
        key = ('default', id(expr))
        if key in self.modconst:
            return self.modconst[key]
        st = State({}, [], Facts())
        fid = self.new_id()
        st.heap[fid] = ('frame', {}, None)
        v = self.eval(expr, st, Ctx(fid, None, fi.module, fi.cls, 0))
        self.static.update(st.heap)
        self.modconst[key] = v
        return v

    def call_fn(self, fi, args, kwargs, st):
        if fi is None:
            return unk('unresolved function')
        if st.dead:
            return mk('raise', 'dead')
        if fi.qual in self.opaque:
            b = self.bind_args(fi.node.args, args, kwargs, st, fi)
            if b is None:
                return mk('raise', 'TypeError')
            self.opaque_used.add(fi.qual)
            ps = [p.arg for p in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs]
            if fi.kind == 'class' and ps:
                ps = ps[1:]
            vals = [self.freeze(b[p], st) for p in ps]
            r = mk('call', mk('fn', fi.module.name, fi.qual), *vals)
            if (self.ty(r) or '').startswith('seq'):
                return self.alloc(st, ('list', r))      # a new list on every call
            return r
        if fi.kind == 'property' and not args:
            return unk('property object')
        if fi.memo:
            return self.remembered(fi, args, kwargs, st)
        return self.call_body(fi, args, kwargs, st)

    def remembered(self, fi, args, kwargs, st):
        """a function whose answers are kept by its arguments; an object stands for itself unless its class says when two are the same"""
        ctx = Ctx(None, fi, fi.module, fi.cls, 0)
        where = ('kept', fi.module.name, fi.qual)
        if where not in self.modconst:
            r = mk('ref', self.new_id())
            self.static[r.args[0]] = ('dict', mk('dict'))
            self.modconst[where] = r
        r = self.modconst[where]
        key = mk('tuple', *args, *[x for k in sorted(kwargs) for x in (const(k), kwargs[k])])
        if self.obj(st, r)[1] is not mk('dict'):
            known = self.truth(self.lib.contains_(key, r, st, ctx), st)
        else:
            known = FALSE
            self.lib.hash_key(mk('dict'), key, st)
        if st.dead:
            return mk('raise', 'dead')

        def ask(s):
            v = self.call_body(fi, args, kwargs, s)
            if not s.dead and (fi.kind in ('method', 'property') or v.op in ('ref', 'ite', 'clo')):
                self.setitem(r, key, v, s, ctx)
            return v
        return self.fork(st, known, lambda s: self.getitem(r, key, s, ctx), ask)

    def call_body(self, fi, args, kwargs, st):
        b = self.bind_args(fi.node.args, args, kwargs, st, fi)
        if b is None:
            if fi.module.name.startswith('%'):
                raise Undecided(f'call of a stand-in {fi.qual}')
            return mk('raise', 'TypeError')
        if len(self.stack) > MAXDEPTH:
            raise Undecided('call depth')
        if sum(1 for x in self.stack if x is fi.node) > 40:
            raise Undecided('recursion in ' + fi.qual)
        if not fi.module.name.startswith('%'):
            self.used[fi.qual] = fi.where
        fid = self.new_id()
        st.heap[fid] = ('frame', b, None)
        ctx = Ctx(fid, fi, fi.module, fi.cls, 0)
        if fi.kind in ('method', 'property', 'class') and fi.node.args.args:
            ctx.selfv = b.get(fi.node.args.args[0].arg)
        return self.run_body(fi.node, st, ctx)

    def call_clo(self, f, args, kwargs, st):
        r = self.clos[f.args[0]]
        node = r['node']
        b = self.bind_args(node.args, args, kwargs, st, None, defaults=r['defaults'], kwd=r['kwd'])
        if b is None:
            return mk('raise', 'TypeError')
        if len(self.stack) > MAXDEPTH or sum(1 for x in self.stack if x is node) > 12:
            raise Undecided('closure recursion')
        fid = self.new_id()
        st.heap[fid] = ('frame', b, r['fid'])
        ctx = Ctx(fid, r['func'], r['module'], r['cls'], 0, r['selfv'])
        ctx.globals_ = r['globals']
        if isinstance(node, ast.Lambda):
            self.stack.append(node)
            try:
                return self.eval(node.body, st, ctx)
            finally:
                self.stack.pop()
        return self.run_body(node, st, ctx)

    def run_body(self, node, st, ctx):
        self.stack.append(node)
        try:
            gen = is_generator(node)
            if gen:
                self.frame_set(st, ctx.fid, '%yield', EMPTY)
            o = self.block(node.body, st, ctx)
            path = st.path
            v = NONE
            if o.ret is None and o.fall is None:
                # always raises
                st.dead = True
                dead = o_dead_state(o)
                return mk('raise', st.guards[-1][1] if st.guards else 'dead')
            if o.ret is not None and o.fall is not None:
                s = self.join(o.ret[0], o.ret[1], o.fall[1])
                v = ite(o.ret[0], o.ret[2], NONE)
            elif o.ret is not None:
                s, v = o.ret[1], o.ret[2]
            else:
                s = o.fall[1]
            st.become(s)
            st.path = path
            if gen:
                v = mk('iter', self.frame_get(st, ctx.fid, '%yield'))
            return v
        finally:
            self.stack.pop()

    def abstract_missing(self, c):
        if not (any(b in ABC_BASES for b in c.ext_bases()) or c.node.keywords):
            return []
        if c.is_enum:
            return []
        out = []
        seen = set()
        for k in c.mro():
            for n, fi in k.methods.items():
                if n in seen:
                    continue
                seen.add(n)
                if any((isinstance(d, ast.Name) and d.id == 'abstractmethod') or (isinstance(d, ast.Attribute) and d.attr == 'abstractmethod')
                       for d in fi.node.decorator_list):
                    out.append(n)
            seen |= set(k.attrs)
        return out

    def instantiate(self, c, args, kwargs, st):
        if c.is_enum:
            if len(args) == 1:
                v = args[0]
                if v.op == 'enum':
                    return v
                res = None
                mem = self.enum_members(c.key)
                for m in mem:
                    e = eq(self.enum_value(m), v)
                    d = st.facts.decide(e)
                    if d is True:
                        return m
                if all(st.facts.decide(eq(self.enum_value(m), v)) is False for m in mem):
                    return self.fail(st, 'ValueError')
                r = mk('call', mk('cls', c.key), v)
                res = mem[-1]
                for m in reversed(mem[:-1]):
                    res = ite(eq(self.enum_value(m), v), m, res)
                return res
            return unk('enum call')
        if any(b in BUILTIN_EXC for b in c.ext_bases() if isinstance(b, str)):
            return mk('exc', c.name)
        miss = self.abstract_missing(c)
        if miss:
            self.notes.append(f'{c.name} leaves abstract {", ".join(miss)}')
            return self.fail(st, 'TypeError')
        if c.is_record and c.find('__init__') is None and c.find('__new__') is None:
            fields = c.fields()
            vals = {}
            if any(a.op == 'star' for a in args):
                s = [a for a in args if a.op == 'star'][0].args[0]
                if len(args) == 1:
                    args = [at(s, num(j)) for j in range(len(fields) - len(kwargs))]
                else:
                    return unk('star in record')
            if len(args) > len(fields):
                return self.fail(st, 'TypeError')
            for (n, d, m), v in zip(fields, args):
                vals[n] = v
            for k, v in kwargs.items():
                if k not in [f[0] for f in fields] or k in vals:
                    return self.fail(st, 'TypeError')
                vals[k] = v
            out = []
            for n, d, m in fields:
                if n in vals:
                    out.append(vals[n])
                elif d is not None:
                    out.append(self.record_default(c, n, d, m, st))
                else:
                    return self.fail(st, 'TypeError')
            if c.find('__post_init__') is not None or (c.is_dataclass and self.mutable_record(c)):
                ref = self.alloc(st, ('inst', c.key, dict(zip([f[0] for f in fields], out))))
                if c.find('__post_init__') is not None:
                    self.call_fn(c.find('__post_init__'), [ref], {}, st)
                return ref
            seqs.FIELDS[c.key] = [f[0] for f in c.fields()]
            return mk('rec', c.key, *out)
        ref = self.alloc(st, ('inst', c.key, {}))
        init = c.find('__init__')
        if init is not None:
            self.call_fn(init, [ref] + args, kwargs, st)
        elif args or kwargs:
            return self.fail(st, 'TypeError')
        return ref

    def record_default(self, c, n, d, m, st):
        if isinstance(d, ast.Call) and getattr(d.func, 'id', getattr(d.func, 'attr', '')) == 'field':
            for k in d.keywords:
                if k.arg == 'default':
                    d = k.value
                elif k.arg == 'default_factory':
                    fid = self.new_id()
                    st.heap[fid] = ('frame', {}, None)
                    ctx = Ctx(fid, None, m, c, 0)
                    return self.call(self.eval(k.value, st, ctx), [], {}, st, None, ctx)
        return self.class_attr(c, n) or unk('field default')

    def mutable_record(self, c):
        """a dataclass some repository method assigns fields of (needs identity)"""
        for k in c.mro():
            for fi in k.methods.values():
                for x in ast.walk(fi.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                        return True
        return False

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, ctx):
        out = Out(fall=(TRUE, st))
        for s in stmts:
            cur = out.fall
            if cur is None:
                break
            c, stt = cur
            if stt.dead:
                out = Out(None, out.ret, out.brk, out.cont)
                self._dead_guards(out, stt)
                break
            o = self.stmt(s, stt, ctx)
            out = self.seq_outs(Out(None, out.ret, out.brk, out.cont), c, o)
            if o.fall is None:
                # guards raised on dead ends must survive in the other exits
                pass
        if out.fall is not None and out.fall[1].dead:
            stt = out.fall[1]
            out = Out(None, out.ret, out.brk, out.cont)
            self._dead_guards(out, stt)
        # when nothing survives keep the guards in the entry state
        if out.fall is None and out.ret is None and out.brk is None and out.cont is None:
            st.dead = True
            if 'stt' in locals():
                st.guards = stt.guards
        return out

    def _dead_guards(self, out, dead):
        for k in ('ret', 'brk', 'cont'):
            x = getattr(out, k)
            if x is not None:
                x[1].guards = self._gmerge(x[1].guards, dead.guards)

    def stmt(self, n, st, ctx):
        self.step()
        m = getattr(self, 's_' + n.__class__.__name__, None)
        if m is None:
            raise Undecided('statement ' + n.__class__.__name__)
        return m(n, st, ctx)

    def fallo(self, st):
        return Out(fall=(TRUE, st))

    def s_Expr(self, n, st, ctx):
        if not isinstance(n.value, ast.Constant):
            self.eval(n.value, st, ctx)
        return self.fallo(st)

    def s_Pass(self, n, st, ctx):
        return self.fallo(st)

    def s_Global(self, n, st, ctx):
        ctx.globals_ = ctx.globals_ | set(n.names)
        return self.fallo(st)

    def s_Nonlocal(self, n, st, ctx):
        fid = ctx.fid
        o = st.heap[fid]
        names = dict(o[1])
        names['%nonlocal'] = mk('const', ' '.join(n.names + ([names['%nonlocal'].args[0]] if '%nonlocal' in names else [])))
        st.heap[fid] = ('frame', names, o[2])
        return self.fallo(st)

    def s_Import(self, n, st, ctx):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            dotted = a.name if a.asname else a.name.split('.')[0]
            v = mk('mod', dotted) if dotted in self.p.modules else mk('pyfn', canon_ext(dotted))
            self.frame_set(st, ctx.fid, nm, v)
        return self.fallo(st)

    def s_ImportFrom(self, n, st, ctx):
        for a in n.names:
            mod = n.module or ''
            if mod in self.p.modules:
                r = self.p.resolve_name(self.p.modules[mod], a.name)
                v = self.resolved(r, a.name) if r is not None else None
                if v is None:
                    self.fail(st, 'ImportError')
                    return self.fallo(st)
            else:
                v = mk('pyfn', canon_ext(mod + '.' + a.name))
            self.frame_set(st, ctx.fid, a.asname or a.name, v)
        return self.fallo(st)

    def s_FunctionDef(self, n, st, ctx):
        v = self.closure(n, st, ctx, n.name)
        for d in reversed(n.decorator_list):
            v = self.call(self.eval(d, st, ctx), [v], {}, st, d, ctx)
        self.frame_set(st, ctx.fid, n.name, v)
        return self.fallo(st)

    def s_ClassDef(self, n, st, ctx):
        raise Undecided('local class')

    def s_Return(self, n, st, ctx):
        v = self.eval(n.value, st, ctx) if n.value is not None else NONE
        if st.dead:
            return self.fallo(st)
        return Out(ret=(TRUE, st, v))

    def s_Break(self, n, st, ctx):
        return Out(brk=(TRUE, st))

    def s_Continue(self, n, st, ctx):
        return Out(cont=(TRUE, st))

    def s_Raise(self, n, st, ctx):
        name = 'Exception'
        e = n.exc
        if e is None:
            cur = self.frame_get(st, ctx.fid, '%exc')
            name = cur.args[0] if cur is not None else 'RuntimeError'
        else:
            f = e.func if isinstance(e, ast.Call) else e
            v = self.eval(f, st, ctx)
            if v.op == 'pyfn':
                name = v.args[0].split('.')[-1]
            elif v.op == 'cls':
                name = self.cls(v.args[0]).name
            elif v.op == 'exc':
                name = v.args[0]
            elif v.op == 'const' or v.op == 'unk':
                name = 'Exception'
        self.raise_(st, TRUE, name)
        return self.fallo(st)

    def s_Assert(self, n, st, ctx):
        c = self.cond(n.test, st, ctx)
        if not st.dead:
            if c.op == 'unk':
                return self.fallo(st)
            self.raise_(st, not_(c), 'AssertionError')
        return self.fallo(st)

    def s_Delete(self, n, st, ctx):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.frame_set(st, ctx.fid, t.id, mk('const', 'unset#'))
            elif isinstance(t, ast.Subscript):
                v = self.eval(t.value, st, ctx)
                k = self.eval(t.slice, st, ctx) if not isinstance(t.slice, ast.Slice) else self.slice_term(t.slice, st, ctx)
                self.lib.delitem(v, k, st, ctx)
            else:
                raise Undecided('del attribute')
        return self.fallo(st)

    def s_Assign(self, n, st, ctx):
        v = self.eval(n.value, st, ctx)
        if not st.dead:
            for t in n.targets:
                self.assign(t, v, st, ctx)
        return self.fallo(st)

    def s_AnnAssign(self, n, st, ctx):
        if n.value is not None:
            v = self.eval(n.value, st, ctx)
            if not st.dead:
                self.assign(n.target, v, st, ctx)
        return self.fallo(st)

    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            fid = ctx.fid
            o = st.heap[fid]
            nl = o[1].get('%nonlocal')
            if t.id in ctx.globals_:
                m = ctx.module
                if t.id not in m.assigns or t.id in m.imports:
                    raise Undecided('global assignment')
                self.shared_set(st, '%g:' + m.name, t.id, v, self.module_const(m, t.id))
                return
            if nl is not None and t.id in nl.args[0].split():
                f2 = o[2]
                while f2 is not None and t.id not in (st.heap.get(f2) or self.static.get(f2))[1]:
                    f2 = (st.heap.get(f2) or self.static.get(f2))[2]
                if f2 is not None:
                    fid = f2
            self.frame_set(st, fid, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            s = self.iter_seq(v, st, ctx)
            if st.dead:
                return
            s = norm_seq(s)
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                for j in range(i):
                    self.assign(t.elts[j], at(s, num(j)), st, ctx)
                mid = sslice(s, num(i), num(-after) if after else NONE, NONE)
                self.assign(t.elts[i].value, self.alloc(st, ('list', mid)), st, ctx)
                for j in range(after):
                    self.assign(t.elts[i + 1 + j], at(s, num(j - after)), st, ctx)
                return
            if s.op == 'list' and len(s.args) != len(t.elts):
                self.fail(st, 'ValueError')
                return
            isarr = v.op == 'arr'
            for j, e in enumerate(t.elts):
                x = at(s, num(j))
                self.assign(e, x, st, ctx)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, ctx)
            if not st.dead:
                self.setattr(o, t.attr, v, st, ctx)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, ctx)
            k = self.slice_term(t.slice, st, ctx) if isinstance(t.slice, ast.Slice) else self.eval(t.slice, st, ctx)
            if not st.dead:
                self.setitem(o, k, v, st, ctx)
        elif isinstance(t, ast.Starred):
            raise Undecided('starred target')
        else:
            raise Undecided('assignment target')

    def s_AugAssign(self, n, st, ctx):
        op = type(n.op).__name__
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.e_Name(ast.copy_location(ast.Name(t.id, ast.Load()), t), st, ctx)
            rhs = self.eval(n.value, st, ctx)
            if st.dead:
                return self.fallo(st)
            v = self.aug(op, cur, rhs, st, ctx)
            if not st.dead:
                self.assign(t, v, st, ctx)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, ctx)
            cur = self.getattr(o, t.attr, st, ctx) if not st.dead else None
            rhs = self.eval(n.value, st, ctx)
            if st.dead:
                return self.fallo(st)
            v = self.aug(op, cur, rhs, st, ctx)
            if not st.dead:
                self.setattr(o, t.attr, v, st, ctx)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, ctx)
            k = self.slice_term(t.slice, st, ctx) if isinstance(t.slice, ast.Slice) else self.eval(t.slice, st, ctx)
            cur = self.getitem(o, k, st, ctx) if not st.dead else None
            rhs = self.eval(n.value, st, ctx)
            if st.dead:
                return self.fallo(st)
            v = self.aug(op, cur, rhs, st, ctx)
            if not st.dead:
                self.setitem(o, k, v, st, ctx)
        return self.fallo(st)

    def aug(self, op, cur, rhs, st, ctx):
        return self.dist(cur, st, lambda x, s: self._aug(op, x, rhs, s, ctx))

    def _aug(self, op, cur, rhs, st, ctx):
        if cur.op == 'ref':
            o = self.obj(st, cur)
            if o[0] == 'list' and o[1].op != 'arr' and op == 'Add':
                s = self.iter_seq(rhs, st, ctx)
                if not st.dead:
                    st.heap[cur.args[0]] = ('list', concat(norm_seq(self.obj(st, cur)[1]), s))
                return cur
            if o[0] == 'list' and o[1].op == 'arr':
                v = self.binop(op, o[1], rhs, st, ctx)
                st.heap[cur.args[0]] = ('list', self.content(v, st))
                return cur
            if o[0] == 'set' and op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
                r = self.lib.setop(op, o[1], self.lib.set_content(rhs, st, ctx))
                st.heap[cur.args[0]] = ('set', r)
                return cur
            if o[0] == 'dict' and op == 'BitOr':
                r = self.lib.dict_update(o[1], self.content(rhs, st), st)
                st.heap[cur.args[0]] = ('dict', r)
                return cur
            if o[0] == 'inst':
                c = self.cls(o[1])
                iname = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'BitOr': '__ior__'}.get(op)
                fi = c.find(iname) if iname else None
                if fi is not None:
                    return self.call_fn(fi, [cur, rhs], {}, st)
        return self.binop(op, cur, rhs, st, ctx)

    def s_If(self, n, st, ctx):
        c = self.cond(n.test, st, ctx)
        if st.dead:
            return self.fallo(st)
        return self.branch(c, st, lambda s: self.block(n.body, s, ctx), lambda s: self.block(n.orelse, s, ctx))

    def branch(self, c, st, f1, f2):
        if c.op == 'unk':
            raise Undecided('condition: ' + str(c.args[0]))
        d = st.facts.decide(c)
        if d is True:
            return f1(st)
        if d is False:
            return f2(st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(not_(c))
        o1 = f1(s1)
        o2 = f2(s2)
        path = st.path
        d1 = not any((o1.fall, o1.ret, o1.brk, o1.cont))
        d2 = not any((o2.fall, o2.ret, o2.brk, o2.cont))
        if d1 and d2:
            st.dead = True
            st.guards = self._gmerge(s1.guards, s2.guards)
            return Out(fall=(TRUE, st))
        if d1 or d2:
            o, dg = (o2, s1.guards) if d1 else (o1, s2.guards)
            for k in ('fall', 'ret', 'brk', 'cont'):
                x = getattr(o, k)
                if x is not None:
                    x[1].guards = self._gmerge(dg, x[1].guards) if d1 else self._gmerge(x[1].guards, dg)
                    if x[1].path is not None:
                        pass
            return o
        r = self.join_outs(c, o1, o2)
        if r.fall is not None and r.ret is None and r.brk is None and r.cont is None:
            r.fall[1].path = path
        return r

    def s_Match(self, n, st, ctx):
        subj = self.eval(n.subject, st, ctx)
        if st.dead:
            return self.fallo(st)

        def go(i, s):
            if i == len(n.cases):
                return Out(fall=(TRUE, s))
            case = n.cases[i]
            binds = {}
            c = self.pattern(case.pattern, subj, s, ctx, binds)

            def body(s2):
                for k, v in binds.items():
                    self.frame_set(s2, ctx.fid, k, v)
                if case.guard is not None:
                    g = self.cond(case.guard, s2, ctx)
                    return self.branch(g, s2, lambda s3: self.block(case.body, s3, ctx), lambda s3: go(i + 1, s3))
                return self.block(case.body, s2, ctx)
            return self.branch(c, s, body, lambda s2: go(i + 1, s2))
        return go(0, st)

    def pattern(self, p, v, st, ctx, binds):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('Eq', v, self.eval(p.value, st, ctx), st, ctx), st)
        if isinstance(p, ast.MatchSingleton):
            return self.compare('Is', v, const(p.value), st, ctx)
        if isinstance(p, ast.MatchAs):
            c = TRUE
            if p.pattern is not None:
                c = self.pattern(p.pattern, v, st, ctx, binds)
            if p.name is not None:
                binds[p.name] = v
            return c
        if isinstance(p, ast.MatchOr):
            return or_(*[self.pattern(q, v, st, ctx, binds) for q in p.patterns])
        if isinstance(p, ast.MatchSequence):
            s = self.content(v, st)
            s = norm_seq(s)
            if s.op == 'list' and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                if len(s.args) != len(p.patterns):
                    return FALSE
                return and_(*[self.pattern(q, x, st, ctx, binds) for q, x in zip(p.patterns, s.args)])
            return unk('sequence pattern')
        if isinstance(p, ast.MatchClass):
            cv = self.eval(p.cls, st, ctx)
            c = self.lib.isinstance_(v, cv, st)
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                c = and_(c, self.pattern(q, self.getattr(v, a, st, ctx), st, ctx, binds))
            if p.patterns:
                if len(p.patterns) == 1 and cv.op == 'pyfn' and cv.args[0] in ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set'):
                    return and_(c, self.pattern(p.patterns[0], v, st, ctx, binds))
                return unk('class pattern')
            return c
        return unk('pattern')

    def s_With(self, n, st, ctx):
        for i in n.items:
            v = self.eval(i.context_expr, st, ctx)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, ctx)
        return self.block(n.body, st, ctx)

    def s_Try(self, n, st, ctx):
        names = []
        for h in n.handlers:
            hs = []
            if h.type is None:
                hs = ['Exception']
            else:
                for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    v = self.eval(t, st, ctx)
                    hs.append(v.args[0].split('.')[-1] if v.op == 'pyfn' else (self.cls(v.args[0]).name if v.op == 'cls' else 'Exception'))
            names.append(hs)
        pre = st.copy()
        g0 = len(st.guards)
        saved = ctx.in_try
        c2 = Ctx(ctx.fid, ctx.func, ctx.module, ctx.cls, ctx.depth, ctx.selfv)
        c2.in_try = saved + tuple(x for hs in names for x in hs)
        c2.globals_ = ctx.globals_
        path0 = st.path
        st.path = TRUE
        self.tries += 1
        try:
            o = self.block(n.body, st, c2)
        finally:
            self.tries -= 1
        # collect guards raised inside
        allg = []
        states = [x[1] for x in (o.fall, o.ret, o.brk, o.cont) if x is not None]
        src = states if states else [st]
        seen = set()
        for s in src:
            for g in s.guards[g0:]:
                if id(g) not in seen:
                    seen.add(id(g))
                    allg.append(g)
        caught = TRUE if False else FALSE
        handlers = []   # (cond, handler, exc)
        snaps = {}
        keep = []
        prior = FALSE
        for g in allg:
            c, e = g
            hit = None
            for hs, h in zip(names, n.handlers):
                if any(exc_is(e, x) for x in hs):
                    hit = h
                    break
            cc = and_(not_(prior), c)
            if hit is None:
                kg = (and_(path0, cc), e)
                keep.append(kg)
                if id(g) in self.snaps and self.tries:
                    self.snaps[id(kg)] = (kg, self.snaps[id(g)][1])
            else:
                handlers.append((cc, hit, e))
                snaps[len(handlers) - 1] = self.snaps.get(id(g), (None, None))[1]
            prior = or_(prior, c)
        for s in src:
            s.guards = s.guards[:g0] + keep
            s.path = and_(path0, s.path)
        st.path = path0
        if not handlers:
            for s in src:
                pass
            if n.orelse and o.fall is not None:
                o2 = self.block(n.orelse, o.fall[1], ctx)
                o = self.seq_outs(Out(None, o.ret, o.brk, o.cont), o.fall[0], o2)
            return self._finally(n, o, st, ctx, g0)
        if n.orelse and o.fall is not None:
            o2 = self.block(n.orelse, o.fall[1], ctx)
            o = self.seq_outs(Out(None, o.ret, o.brk, o.cont), o.fall[0], o2)
        # group per handler
        res = o
        for h in n.handlers:
            cs = [c for c, hh, e in handlers if hh is h]
            if not cs:
                continue
            c = or_(*cs)
            es = [e for cc, hh, e in handlers if hh is h]
            s = pre.copy()
            own = [(handlers[j][0], snaps[j]) for j in range(len(handlers)) if handlers[j][1] is h]
            if any(hp is None for cc, hp in own):
                for x in src:
                    if any(x.heap.get(k_) is not v_ for k_, v_ in pre.heap.items()):
                        raise Undecided('effects before an exception raised in a loop')
            else:
                acc = None
                for cc, hp in reversed(own):
                    one = State(hp, [], pre.facts, False, pre.path)
                    acc = one if acc is None else self.join(cc, one, acc)
                s.heap = dict(acc.heap)
            s.facts = s.facts.add(c)
            s.path = and_(path0, c)
            self.frame_set(s, ctx.fid, '%exc', mk('exc', es[0]))
            if h.name:
                self.frame_set(s, ctx.fid, h.name, mk('exc', es[0]))
            ho = self.block(h.body, s, ctx)
            hd = not any((ho.fall, ho.ret, ho.brk, ho.cont))
            rd = not any((res.fall, res.ret, res.brk, res.cont))
            if hd:
                for k in ('fall', 'ret', 'brk', 'cont'):
                    x = getattr(res, k)
                    if x is not None:
                        x[1].guards = self._gmerge(s.guards, x[1].guards)
                if rd:
                    st.guards = s.guards
                    st.dead = True
                    res = Out(fall=(TRUE, st))
                    continue
            elif rd or pre.facts.decide(c) is True:
                for k in ('fall', 'ret', 'brk', 'cont'):
                    x = getattr(ho, k)
                    if x is not None:
                        x[1].guards = self._gmerge(keep, x[1].guards) if keep else x[1].guards
                res = ho
            else:
                res = self.join_outs(c, ho, res)
        return self._finally(n, res, st, ctx, g0)

    def _finally(self, n, o, st, ctx, g0=0):
        if n.finalbody:
            if self.tries:
                # an exception that leaves the statement leaves it after the final block
                done = set()
                outs = [x[1] for x in (o.fall, o.ret, o.brk, o.cont) if x is not None] or [st]
                for x in outs:
                    for g in x.guards[g0:]:
                        if id(g) in done:
                            continue
                        done.add(id(g))
                        hp = self.snaps.get(id(g), (None, None))[1]
                        if hp is None:
                            continue
                        one = State(dict(hp), [], x.facts, False, x.path)
                        o2 = self.block(n.finalbody, one, ctx)
                        if o2.fall is None or o2.ret is not None or o2.brk is not None or o2.cont is not None or o2.fall[1].guards or o2.fall[1].dead:
                            raise Undecided('finally')
                        self.snaps[id(g)] = (g, o2.fall[1].heap)
            if o.ret is None and o.brk is None and o.cont is None and o.fall is not None:
                o2 = self.block(n.finalbody, o.fall[1], ctx)
                return self.seq_outs(Out(), o.fall[0], o2)
            for k in ('fall', 'ret', 'brk', 'cont'):
                x = getattr(o, k)
                if x is not None:
                    o2 = self.block(n.finalbody, x[1], ctx)
                    if o2.fall is None or o2.ret is not None:
                        raise Undecided('finally')
                    setattr(o, k, (x[0], o2.fall[1]) + tuple(x[2:]))
        return o

    # ------------------------------------------------------------------ loops
    def s_For(self, n, st, ctx):
        it = self.iter_seq(self.eval(n.iter, st, ctx), st, ctx)
        if st.dead:
            return self.fallo(st)

        def body(s, elem):
            self.assign(n.target, elem, s, ctx)
            if s.dead:
                return Out(fall=(TRUE, s))
            return self.block(n.body, s, ctx)
        return self.loop_seq(it, st, ctx, body, n.orelse)

    def loop_seq(self, it, st, ctx, body, orelse=None):
        import loops
        return loops.for_loop(self, it, st, ctx, body, orelse)

    def s_While(self, n, st, ctx):
        import loops
        return loops.while_loop(self, n, st, ctx)

    # ------------------------------------------------------------------ entry points for obligations
    def run(self, func, args, st):
        """call FuncInfo with terms; returns the frozen, guarded result term"""
        v = self.call_fn(func, args, {}, st)
        return self.result(v, st)

    def result(self, v, st):
        if st.dead:
            r = mk('raise', st.guards[-1][1] if st.guards else 'Exception')
            gs = st.guards[:-1]
        else:
            r = self.freeze(v, st)
            gs = st.guards
        for c, e in reversed(gs):
            r = ite(c, mk('raise', e), r)
        return r


def o_dead_state(o):
    return None


def or_path(a, b):
    if a is b:
        return a
    return or_(a, b)


def is_generator(node):
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo += list(ast.iter_child_nodes(x))
    return False


def norm_seq_args(s):
    s = norm_seq(s)
    if s.op == 'list':
        return s.args
    return [mk('star', s)]


def strip_none(vals):
    vals = list(vals)
    while vals and vals[-1] is NONE:
        vals.pop()
    return vals


CANON = {'np': 'numpy', 'pd': 'pandas', 'plt': 'matplotlib.pyplot'}


def canon_ext(d):
    parts = d.split('.')
    if parts[0] in CANON:
        parts = CANON[parts[0]].split('.') + parts[1:]
    return '.'.join(parts)


ABC_BASES = {'collections.abc.Callable', 'collections.abc.Iterable', 'collections.abc.Set', 'collections.abc.Collection',
             'collections.abc.Sequence', 'collections.abc.MutableSequence', 'collections.abc.Mapping', 'collections.abc.Sized',
             'collections.abc.Iterator', 'collections.abc.Container',
             'typing.MutableSequence', 'typing.Iterator', 'abc.ABC', 'typing.Protocol', 'typing.Callable', 'typing.Iterable', 'typing.Collection', 'typing.Sequence'}
KNOWN_BASES = ABC_BASES | {'object', 'enum.Enum', 'typing.NamedTuple', 'typing.Generic', 'Exception', 'enum.IntEnum'}
MIXIN_METHODS = {'isdisjoint', '__or__', '__and__', '__sub__', '__le__', '__eq__'}


def ann_to_ty(a):
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode='eval').body
        except SyntaxError:
            return None
    if isinstance(a, ast.Name):
        return {'date': 'date', 'datetime': 'datetime', 'float': 'num', 'int': 'int', 'str': 'str', 'bool': 'bool', 'timedelta': 'num'}.get(a.id)
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
        l, r = ann_to_ty(a.left), ann_to_ty(a.right)
        if l == 'date' and r == 'datetime' or l == r:
            return l
        if {l, r} <= {'num', 'int'}:
            return 'num'
        return None
    if isinstance(a, ast.Subscript):
        h = a.value.id if isinstance(a.value, ast.Name) else getattr(a.value, 'attr', None)
        if h == 'Optional':
            x = ann_to_ty(a.slice)
            return 'Optional:' + x if x else None
        if h in ('list', 'List', 'Iterable', 'Sequence', 'tuple', 'set'):
            x = ann_to_ty(a.slice)
            return 'seq:' + x if x else 'seq'
    return None
