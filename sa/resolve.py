"""Resolution rules over the syntax trees: every name, import, attribute, call and inherited duty of the library's code must resolve.
Definite violations only: where a class, value or call cannot be resolved from the source nothing is reported."""
import ast
import builtins
import glob
import importlib
import inspect
import os
import re
import symtable
from project import ClassInfo, FuncInfo, PKG, _is_main_guard, _dotted
from rules import RuleResult

BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__loader__', '__path__', '__builtins__', '__annotations__', '__class__', '__debug__', '__qualname__', '__module__'}
OBJECT = set(dir(object)) | {'__dict__', '__module__', '__annotations__', '__slots__', '__weakref__', '__name__', '__qualname__', '__mro__', '__subclasses__', '__bases__', '__wrapped__', '__func__', '__self__', '__abstractmethods__'}
SETS = {'isdisjoint', '_from_iterable', '_hash', 'keys', 'items', 'values', 'get'}
ENUM = {'name', 'value', '_name_', '_value_', '__members__', '_missing_', '_generate_next_value_', '_member_map_', '_member_names_', '_value2member_map_'}
NT = {'_asdict', '_replace', '_fields', '_make', '_field_defaults', 'count', 'index'}
SILENT_BASES = {'abc.ABC', 'ABC', 'object', 'enum.Enum', 'enum.IntEnum', 'Enum', 'typing.NamedTuple', 'NamedTuple', 'typing.Generic', 'Generic', 'typing.Protocol', 'Protocol',
                'collections.abc.Callable', 'collections.abc.Sized', 'collections.abc.Container', 'collections.abc.Iterable', 'collections.abc.Iterator', 'collections.abc.Collection',
                'collections.abc.Sequence', 'collections.abc.MutableSequence', 'collections.abc.Set', 'collections.abc.Mapping', 'typing.Callable', 'typing.Iterable', 'typing.Collection', 'typing.Sequence', 'typing.MutableSequence', 'typing.Iterator'}
DYN = {'setattr', 'delattr', 'globals', 'locals', 'exec', 'eval', 'vars', '__import__'}


def library(p):
    return [m for n, m in sorted(p.modules.items()) if n.startswith(PKG + '.src') or n == PKG + '.src']


def statements(m):
    """top-level statements that run when the module is imported"""
    for s in m.tree.body:
        if isinstance(s, ast.If) and _is_main_guard(s):
            continue
        yield s


def main_nodes(m):
    return {id(x) for s in m.tree.body if isinstance(s, ast.If) and _is_main_guard(s) for b in s.body for x in ast.walk(b)}


def functions(p):
    for m in library(p):
        for f in m.functions.values():
            yield f
        for c in m.classes.values():
            for f in list(c.methods.values()) + list(c.setters.values()):
                yield f


class Finder:
    def __init__(self, p):
        self.p = p
        self.lib = library(p)
        self.classes = [c for m in self.lib for c in m.classes.values()]
        self.dynamic = False
        self.stored = set()     # attribute names stored on something that is not self
        for m in self.lib:
            skip = main_nodes(m)
            for x in ast.walk(m.tree):
                if id(x) in skip:
                    continue
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == 'self'):
                    self.stored.add(x.attr)
        self._own = {}

    # ---------------------------------------------------------------- classes
    def closed(self, c):
        """every base is known and nothing adds attributes by name"""
        for k in c.mro():
            if k.module.name == '%abc':
                continue
            for b in k.bases:
                if isinstance(b, str) and b not in SILENT_BASES and not b.startswith('typing.'):
                    return False
            if len([b for b in k.node.bases]) != len(k.bases):
                return False
            if {'__getattr__', '__getattribute__', '__setattr__', '__slots__'} & (set(k.methods) | set(k.attrs)):
                return False
            if any(_dotted(d.func if isinstance(d, ast.Call) else d) not in ('dataclass', 'dataclasses.dataclass', 'total_ordering', 'functools.total_ordering', 'unique', 'enum.unique', 'final', 'typing.final') for d in k.node.decorator_list):
                return False
            if any(kw.arg == 'metaclass' and _dotted(kw.value) not in ('ABCMeta', 'abc.ABCMeta') for kw in k.node.keywords):
                return False
            for x in ast.walk(k.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in DYN:
                    return False
                if isinstance(x, ast.Attribute) and x.attr in ('__dict__', '__setattr__'):
                    return False
        return True

    def own(self, c):
        """attributes the class body and its methods give an instance, by the method that stores them (None: the body)"""
        if c.key not in self._own:
            d = {}
            for n in list(c.methods) + list(c.setters) + list(c.attrs) + [a for a, _ in c.anns]:
                d.setdefault(n, set()).add(None)
            for s in c.node.body:
                if isinstance(s, (ast.ClassDef, ast.Import, ast.ImportFrom, ast.For, ast.With, ast.If, ast.Try, ast.AugAssign)):
                    for x in ast.walk(s):
                        for n in ([x.id] if isinstance(x, ast.Name) else [x.name] if isinstance(x, (ast.ClassDef, ast.FunctionDef)) else [(a.asname or a.name) for a in x.names] if isinstance(x, (ast.Import, ast.ImportFrom)) else []):
                            d.setdefault(n, set()).add(None)
            for f in list(c.methods.values()) + list(c.setters.values()):
                a = f.node.args.posonlyargs + f.node.args.args
                if f.kind == 'static' or not a:
                    continue
                me = a[0].arg
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                        d.setdefault(x.attr, set()).add(f.name)
            self._own[c.key] = d
        return self._own[c.key]

    def has(self, c, name):
        """some instance of the class or of a subclass may have the attribute"""
        if name in OBJECT or name in self.stored or not self.closed(c):
            return True
        if name in SETS and any(b in ('collections.abc.Set', 'collections.abc.Mapping') for k in c.mro() for b in k.bases):
            return True
        if c.is_enum and name in ENUM or c.is_namedtuple and name in NT:
            return True
        fam = [k for k in self.classes if c in k.mro()] + [c]
        for k in fam:
            if not self.closed(k):
                return True
            for q in k.mro():
                if name in self.own(q):
                    return True
        return False

    def on_class(self, c, name):
        """the class object has the attribute"""
        if name in OBJECT or name in self.stored or not self.closed(c) or name in ('mro',):
            return True
        if c.is_enum and name in ENUM or c.is_namedtuple and name in NT:
            return True
        return any(None in self.own(q).get(name, ()) for q in c.mro())

    def duties(self, c):
        """inherited abstract methods without an implementation"""
        out = []
        seen = set()
        for k in c.mro():
            for n, f in k.methods.items():
                if n in seen:
                    continue
                seen.add(n)
                if any((_dotted(d) or '').split('.')[-1] in ('abstractmethod', 'abstractproperty') for d in f.node.decorator_list):
                    out.append((k, n))
            seen |= set(k.attrs)
        return out

    def declares(self, c):
        return any((_dotted(d) or '').split('.')[-1] in ('abstractmethod', 'abstractproperty') for f in c.methods.values() for d in f.node.decorator_list)

    # ---------------------------------------------------------------- values
    def annotation(self, m, a):
        """classes a value so annotated belongs to (None: not known)"""
        if a is None:
            return None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            l, r = self.annotation(m, a.left), self.annotation(m, a.right)
            return None if l is None or r is None else l + r
        if isinstance(a, ast.Constant) and a.value is None:
            return []
        if isinstance(a, ast.Subscript) and (_dotted(a.value) or '').split('.')[-1] == 'Optional':
            return self.annotation(m, a.slice)
        if isinstance(a, ast.Subscript) and (_dotted(a.value) or '').split('.')[-1] == 'Union' and isinstance(a.slice, ast.Tuple):
            out = []
            for e in a.slice.elts:
                x = self.annotation(m, e)
                if x is None:
                    return None
                out += x
            return out
        d = _dotted(a)
        r = self.p.resolve_dotted(m, d) if d else None
        return [r] if isinstance(r, ClassInfo) and r.module.name != '%abc' else None


class Walk:
    """one function's expressions with what is known about its locals"""
    def __init__(self, F, f, cls):
        self.F, self.f, self.m, self.cls = F, f, f.module, cls
        n = f.node
        a = n.args.posonlyargs + n.args.args
        self.me = a[0].arg if cls is not None and f.kind in ('method', 'property') and a else None
        self.mecls = a[0].arg if cls is not None and f.kind == 'class' and a else None
        self.types, self.locals = {}, set()
        for x in ast.walk(n):
            if isinstance(x, ast.arg):
                self.locals.add(x.arg)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                self.locals.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not n:
                self.locals.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                self.locals |= {(al.asname or al.name).split('.')[0] for al in x.names}
            elif isinstance(x, ast.ExceptHandler) and x.name:
                self.locals.add(x.name)
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                self.locals.add(x.name)
            elif isinstance(x, ast.MatchMapping) and x.rest:
                self.locals.add(x.rest)
        stores = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stores[x.id] = stores.get(x.id, 0) + 1
        args = {}
        for x in ast.walk(n):
            if isinstance(x, ast.arg):
                args.setdefault(x.arg, []).append(x)
        for q in a + n.args.kwonlyargs:
            if q.arg not in stores and len(args[q.arg]) == 1:
                self.types[q.arg] = F.annotation(self.m, q.annotation)
        for x in ast.walk(n):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and stores[x.targets[0].id] == 1 and x.targets[0].id not in args:
                self.types[x.targets[0].id] = ('=', x.value)

    def name(self, i):
        """what a global name stands for; None for locals"""
        return None if i in self.locals else self.F.p.resolve_name(self.m, i)

    def type(self, e, depth=0):
        """classes an expression's value is an instance of; None when not known"""
        if depth > 6:
            return None
        if isinstance(e, ast.Name):
            if e.id == self.me:
                return [self.cls]
            t = self.types.get(e.id)
            if isinstance(t, tuple):
                return self.type(t[1], depth + 1)
            return t
        if isinstance(e, ast.Call):
            k = self.target(e.func, depth + 1)
            if isinstance(k, ClassInfo):
                return [k] if not k.is_enum and k.find('__new__') is None else None
            if isinstance(k, FuncInfo) and not k.decorators and k.kind in ('method', 'static', 'class', 'function'):
                return self.F.annotation(k.module, k.node.returns) or None
        if isinstance(e, ast.Attribute):
            ts = self.type(e.value, depth + 1)
            if ts and len(ts) == 1:
                f = ts[0].find(e.attr)
                if f is not None and f.kind == 'property' and not any(e.attr in k.methods and k.find(e.attr) is not f for k in self.F.classes if ts[0] in k.mro()):
                    return self.F.annotation(f.module, f.node.returns) or None
        return None

    def klass(self, e):
        """the class an expression denotes"""
        if isinstance(e, ast.Name) and e.id == self.mecls:
            return self.cls
        d = _dotted(e)
        if d is None or d.split('.')[0] in self.locals:
            return None
        r = self.F.p.resolve_dotted(self.m, d)
        return r if isinstance(r, ClassInfo) else None

    def target(self, fn, depth=0):
        """(function or class) a call resolves to, when that is certain"""
        if isinstance(fn, ast.Name):
            r = self.name(fn.id)
            return r if isinstance(r, (ClassInfo, FuncInfo)) else (self.cls if fn.id == self.mecls else None)
        if isinstance(fn, ast.Attribute):
            k = self.klass(fn.value)
            if k is not None:
                return k.find(fn.attr)
            d = _dotted(fn)
            if d and d.split('.')[0] not in self.locals:
                r = self.F.p.resolve_dotted(self.m, d)
                if isinstance(r, (ClassInfo, FuncInfo)):
                    return r
            ts = self.type(fn.value, depth + 1)
            if ts and len(ts) == 1:
                f = ts[0].find(fn.attr)
                return f if f is not None and f.kind != 'property' else None
        return None


def params(f, bound):
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = ps[:len(ps) - nd] if nd else list(ps)
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    pos_only = [x.arg for x in a.posonlyargs]
    if bound:
        ps, req, pos_only = ps[1:], [x for x in req if x != ps[0]] if ps else [], pos_only[1:] if pos_only else []
    return ps, req, [x.arg for x in a.kwonlyargs], kwreq, a.vararg is not None, a.kwarg is not None, pos_only


def mismatch(call, sig):
    """why the arguments of a call do not bind; None when they do or cannot be counted"""
    ps, req, kwo, kwreq, var, kw, po = sig
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    names = [k.arg for k in call.keywords if k.arg is not None]
    for k in names:
        if k not in [x for x in ps if x not in po] + kwo and not kw:
            return f'no parameter {k}'
    if n > len(ps) and not var:
        return f'{n} positional arguments for {len(ps)} parameters'
    if not star:
        for k in names:
            if k in ps[:n] and k not in po:
                return f'{k} is given twice'
        if not dstar:
            miss = [x for x in req if x in ps[n:] and x not in names] + [x for x in kwreq if x not in names]
            if miss:
                return 'missing ' + ', '.join(miss)
    return None


LEAST = {'datetime.date': 3, 'datetime.datetime': 3}


def unbound(dotted, call):
    """why the arguments of a call of the standard library do not bind"""
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    if dotted in LEAST:
        n = len(call.args) + len(call.keywords)
        return f'{n} arguments' if n < LEAST[dotted] else None
    o = external(dotted)
    try:
        sig = inspect.signature(o)
    except (TypeError, ValueError):
        return None
    try:
        sig.bind(*[None] * len(call.args), **{k.arg: None for k in call.keywords})
    except TypeError as e:
        return str(e)
    return None


def signature(F, k):
    """the signature of constructing a class"""
    init = None
    for c in k.mro():
        if '__new__' in c.methods:
            return None
        if '__init__' in c.methods:
            init = c.methods['__init__']
            break
        if c.is_dataclass or c.is_namedtuple:
            if c.is_dataclass and not all(q.is_dataclass or q.module.name == '%abc' or not q.anns for q in c.mro()):
                return None
            fs = k.fields()
            if any(isinstance(d, ast.Call) and (_dotted(d.func) or '').split('.')[-1] == 'field' for _, d, _ in fs) or c.dc_opts:
                return None
            return [n for n, _, _ in fs], [n for n, d, _ in fs if d is None], [], [], False, False, []
    if init is None:
        return ([], [], [], [], False, False, []) if F.closed(k) and not k.is_enum else None
    if init.decorators:
        return None
    return params(init, True)


def bodies(F):
    """(function, class it is looked at for): methods are looked at in the class that defines them"""
    for m in F.lib:
        for f in m.functions.values():
            yield f, None
        for c in m.classes.values():
            for f in list(c.methods.values()) + list(c.setters.values()):
                yield f, c


def nodes(fn):
    """nodes of a function that run: not annotations"""
    out = []

    def go(x):
        out.append(x)
        for name, v in ast.iter_fields(x):
            if name in ('annotation', 'returns', 'type_comment', 'type_params'):
                continue
            for y in (v if isinstance(v, list) else [v]):
                if isinstance(y, ast.AST):
                    go(y)
    go(fn)
    return out


def viol(rule, f, node, text):
    where = f'{f.module.relpath}:{getattr(node, "lineno", 0)} {getattr(f, "qual", f.module.name if hasattr(f, "module") else "")}'
    return dict(rule=rule, key=f'{f.module.relpath} {getattr(f, "qual", "")} {text}', construct=where, text=text, functions=[where])


class At:
    """a module as the place of a finding"""
    def __init__(self, m):
        self.module, self.qual = m, ''


# ------------------------------------------------------------------ the rules
def names(p):
    """every global name a function or the module's own statements read is bound by the module, an import or Python"""
    r = RuleResult()
    for m in library(p):
        if any(s not in p.modules for s in m.star) or any(x in m.src for x in ('globals(', 'exec(')):
            continue
        skip = main_nodes(m)
        bound = set(BUILTIN)
        for s in m.tree.body:
            if isinstance(s, ast.If) and _is_main_guard(s):
                continue
            stack = [s]
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    bound.add(x.name)
                    continue
                if isinstance(x, ast.If) and _dotted(x.test) in ('TYPE_CHECKING', 'typing.TYPE_CHECKING'):
                    stack += x.orelse
                    continue
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    bound |= {(a.asname or a.name).split('.')[0] for a in x.names}
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    bound.add(x.id)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    bound.add(x.name)
                elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                    bound.add(x.name)
                stack += list(ast.iter_child_nodes(x))
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Global):
                bound |= set(x.names)
        for s in m.star:
            bound |= set(p.modules[s].functions) | set(p.modules[s].classes) | set(p.modules[s].assigns) | set(p.modules[s].imports)
        lazy = any(isinstance(s, ast.ImportFrom) and s.module == '__future__' and any(a.name == 'annotations' for a in s.names) for s in m.tree.body)
        # which names of which scopes are global: the compiler's own symbol tables
        table = symtable.symtable(m.src, m.path, 'exec')
        free = {}

        def scopes(t, q):
            for s in t.get_symbols():
                if s.is_referenced() and (s.is_global() or t.get_type() == 'module') and not (t.get_type() == 'module' and s.is_assigned() and s.get_name() in bound):
                    free.setdefault(s.get_name(), []).append((q, t.get_lineno()))
            for c in t.get_children():
                scopes(c, (q + '.' if q else '') + c.get_name())
        scopes(table, '')
        used = {}
        note = set()
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                note |= {id(y) for a in x.args.posonlyargs + x.args.args + x.args.kwonlyargs + [z for z in (x.args.vararg, x.args.kwarg) if z] if a.annotation is not None for y in ast.walk(a.annotation)}
                note |= {id(y) for y in ast.walk(x.returns)} if x.returns is not None else set()
            elif isinstance(x, ast.AnnAssign):
                note |= {id(y) for y in ast.walk(x.annotation)}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in skip and not (id(x) in note):
                used.setdefault(x.id, []).append(x)
        r.checked += len(used)
        for n in sorted(set(free) & set(used)):
            if n in bound:
                continue
            # the name is global in some scope and bound nowhere: a read in a scope where it is local is fine
            for x in used[n]:
                q, loc = scope_of(m.tree, x, n)
                if not loc:
                    r.violations.append(viol('name', _at(m, q), x, f'name {n} is not bound'))
                    break
    r.samples.append(f'{r.checked} names read')
    return r


def _at(m, q):
    a = At(m)
    a.qual = q
    return a


def scope_of(tree, node, name):
    """(qualified scope, whether the name is local to it or to an enclosing function)"""
    path = []

    def find(x, trail):
        if x is node:
            path.append(list(trail))
            return True
        step = isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))
        for c in ast.iter_child_nodes(x):
            if find(c, trail + [x] if step else trail):
                return True
        return False
    find(tree, [])
    trail = path[0] if path else []
    q = '.'.join(x.name for x in trail if hasattr(x, 'name'))
    for k, s in enumerate(trail):
        if isinstance(s, ast.ClassDef) and k != len(trail) - 1:
            continue
        for y in ast.walk(s):
            if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)) and y.id == name or isinstance(y, ast.arg) and y.arg == name or \
                    isinstance(y, (ast.FunctionDef, ast.ClassDef)) and y is not s and y.name == name or isinstance(y, ast.ExceptHandler) and y.name == name or \
                    isinstance(y, (ast.MatchAs, ast.MatchStar)) and y.name == name or isinstance(y, (ast.Import, ast.ImportFrom)) and name in {(a.asname or a.name).split('.')[0] for a in y.names}:
                return q, True
    return q, False


def imports(p):
    """every import of the library from itself or the standard library names something that exists"""
    r = RuleResult()
    for m in library(p):
        skip = main_nodes(m)
        tried = {id(y) for x in ast.walk(m.tree) if isinstance(x, ast.Try) for y in ast.walk(x)}
        for x in ast.walk(m.tree):
            if id(x) in skip or id(x) in tried:
                continue
            if isinstance(x, ast.Import):
                for a in x.names:
                    r.checked += 1
                    if a.name.split('.')[0] == PKG and a.name not in p.modules:
                        r.violations.append(viol('import', At(m), x, f'no module {a.name}'))
            elif isinstance(x, ast.ImportFrom) and not x.level:
                mod = x.module or ''
                if mod.split('.')[0] == PKG:
                    if mod not in p.modules:
                        pkg = os.path.isdir(os.path.join(os.path.dirname(os.path.dirname(p.modules[PKG + '.src'].path)) if PKG + '.src' in p.modules else '/', *mod.split('.')[1:]))
                        if not pkg:
                            r.violations.append(viol('import', At(m), x, f'no module {mod}'))
                        continue
                    for a in x.names:
                        r.checked += 1
                        t = p.modules[mod]
                        if a.name != '*' and p.resolve_name(t, a.name) is None and not t.binds(a.name) and a.name not in t.imports and mod + '.' + a.name not in p.modules and not t.star:
                            r.violations.append(viol('import', At(m), x, f'{mod} has no {a.name}'))
                elif mod.split('.')[0] in STD:
                    try:
                        t = importlib.import_module(mod)
                    except Exception:
                        continue
                    for a in x.names:
                        r.checked += 1
                        if a.name != '*' and not hasattr(t, a.name):
                            r.violations.append(viol('import', At(m), x, f'{mod} has no {a.name}'))
    r.samples.append(f'{r.checked} imported names')
    return r


STD = {'math', 'datetime', 'itertools', 'functools', 'bisect', 'enum', 'typing', 'abc', 'collections', 'operator', 'dataclasses', 'random', 'calendar', 'statistics', 'copy', 'time', 'string', 're', 'heapq', 'decimal', 'fractions'}


def implementations(p):
    """a class that adds no abstract method implements every one it inherits; what is constructed can be"""
    r = RuleResult()
    F = Finder(p)
    for c in F.classes:
        if F.declares(c):
            continue
        r.checked += 1
        d = F.duties(c)
        subs = [k for k in F.classes if c in k.mro() and k is not c]
        if d and not subs and not any(b in ('abc.ABC', 'ABC', 'typing.Protocol') for b in c.bases if isinstance(b, str)):
            for k, n in d:
                r.violations.append(viol('implementation', _at(c.module, c.name), c.node, f'{c.name} does not implement {n}'))
    for f, c in bodies(F):
        w = Walk(F, f, c)
        for x in nodes(f.node):
            if isinstance(x, ast.Call):
                k = w.klass(x.func)
                if k is not None and not (isinstance(x.func, ast.Name) and x.func.id == w.mecls):
                    r.checked += 1
                    if F.duties(k) and not k.is_enum:
                        r.violations.append(viol('implementation', f, x, f'{k.name} is constructed but does not implement ' + ', '.join(n for _, n in F.duties(k))))
    r.samples.append(f'{r.checked} classes and constructions')
    return r


def attributes(p):
    """every attribute read on the object itself, on a class, an enumeration, a module or a value of known class exists there"""
    r = RuleResult()
    F = Finder(p)
    for f, c in bodies(F):
        w = Walk(F, f, c)
        r.used[f.qual] = f.where
        guarded = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Try) and any(h.type is None or 'AttributeError' in ast.dump(h.type) or "'Exception'" in ast.dump(h.type) for h in x.handlers):
                guarded |= {id(y) for s in x.body for y in ast.walk(s)}
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr', 'isinstance'):
                guarded.add('probe')
        for x in nodes(f.node):
            if not isinstance(x, ast.Attribute) or not isinstance(x.ctx, ast.Load) or id(x) in guarded:
                continue
            k = w.klass(x.value)
            if k is not None:
                r.checked += 1
                if not F.on_class(k, x.attr):
                    # a class method may be meant for subclasses
                    if not (isinstance(x.value, ast.Name) and x.value.id == w.mecls and F.has(k, x.attr)):
                        r.violations.append(viol('attribute', f, x, f'{k.name} has no {x.attr}'))
                continue
            d = _dotted(x)
            if d and d.split('.')[0] not in w.locals:
                base = p.resolve_dotted(f.module, d.rsplit('.', 1)[0])
                if isinstance(base, tuple) and base[0] == 'mod':
                    r.checked += 1
                    if p.resolve_name(base[1], x.attr) is None and not base[1].binds(x.attr) and base[1].name + '.' + x.attr not in p.modules and not base[1].star:
                        r.violations.append(viol('attribute', f, x, f'module {base[1].name} has no {x.attr}'))
                    continue
                if isinstance(base, str) and base in ('numpy', 'numpy.linalg', 'numpy.random'):
                    r.checked += 1
                    if not stubbed(base, x.attr):
                        r.violations.append(viol('attribute', f, x, f'{base} has no {x.attr}'))
                    continue
                if isinstance(base, str) and base.split('.')[0] in STD:
                    o = external(base)
                    r.checked += 1
                    if o is not None and not hasattr(o, x.attr):
                        r.violations.append(viol('attribute', f, x, f'{base} has no {x.attr}'))
                    continue
            ts = w.type(x.value)
            if ts and not (guarded & {'probe'} and not (isinstance(x.value, ast.Name) and x.value.id == w.me)):
                r.checked += 1
                if not any(F.has(t, x.attr) for t in ts):
                    r.violations.append(viol('attribute', f, x, f'{" or ".join(t.name for t in ts)} has no {x.attr}'))
    r.samples.append(f'{r.checked} attribute reads')
    return r


STUBS = {}


def stubbed(pkg, name):
    """the installed package's own stub (or sources next to it) mention the name"""
    if pkg not in STUBS:
        text = None
        for d in sorted(glob.glob('/opt/venv/lib/python3*/site-packages')):
            at = os.path.join(d, *pkg.split('.'))
            f = os.path.join(at, '__init__.pyi')
            if os.path.exists(f):
                text = open(f, errors='replace').read() + ' ' + ' '.join(q.split('.')[0] for q in os.listdir(at))
        STUBS[pkg] = set(re.findall(r'\w+', text)) if text else None
    return STUBS[pkg] is None or name in STUBS[pkg] or name.startswith('_')


def external(dotted):
    parts = dotted.split('.')
    try:
        o = importlib.import_module(parts[0])
    except Exception:
        return None
    for q in parts[1:]:
        if not hasattr(o, q):
            try:
                o = importlib.import_module('.'.join(parts[:parts.index(q) + 1]))
                continue
            except Exception:
                return None
        o = getattr(o, q)
    return o


def initialised(p):
    """what the methods of a class that can be constructed read of the object is given to it by its own construction, its body or another method"""
    r = RuleResult()
    F = Finder(p)
    for c in F.classes:
        if F.duties(c) or not F.closed(c) or c.is_enum or c.is_record or F.declares(c):
            continue
        have, unsure = set(OBJECT) | SETS | set(F.stored), [False]
        for k in c.mro():
            for n, by in F.own(k).items():
                if None in by or by - {'__init__'}:
                    have.add(n)
        done = set()

        def run(fi, at):
            """attributes given by running a constructor of an instance of c"""
            if (fi.where, at.key) in done:
                return
            done.add((fi.where, at.key))
            me = fi.node.args.args[0].arg if fi.node.args.args else None
            if fi.decorators:
                unsure[0] = True
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                    have.add(x.attr)
                if isinstance(x, ast.Call):
                    g = x.func
                    if isinstance(g, ast.Attribute) and g.attr == '__init__':
                        if isinstance(g.value, ast.Call) and isinstance(g.value.func, ast.Name) and g.value.func.id == 'super':
                            start = at
                            if g.value.args:
                                d = _dotted(g.value.args[0])
                                q = p.resolve_dotted(at.module, d) if d and d != '__class__' else at
                                if not isinstance(q, ClassInfo):
                                    unsure[0] = True
                                    continue
                                start = q
                            rest = c.mro()
                            rest = rest[rest.index(start) + 1:] if start in rest else []
                            for k in rest:
                                if '__init__' in k.methods:
                                    run(k.methods['__init__'], k)
                                    break
                        else:
                            d = _dotted(g.value)
                            q = p.resolve_dotted(at.module, d) if d else None
                            if isinstance(q, ClassInfo) and q.find('__init__') is not None:
                                run(q.find('__init__'), q.find('__init__').cls)
                            else:
                                unsure[0] = True
                    elif any(isinstance(a, ast.Name) and a.id == me for a in list(x.args) + [q.value for q in x.keywords]) and not (isinstance(g, ast.Name) and g.id in ('isinstance', 'super', 'type', 'len', 'str', 'repr', 'id', 'hash', 'print')):
                        # the object handed to something else while it is built
                        if not isinstance(g, ast.Attribute) or True:
                            unsure[0] = unsure[0] or not isinstance(g, ast.Name)
        init = c.find('__init__')
        if init is not None:
            run(init, init.cls)
        if unsure[0]:
            continue
        for k in c.mro():
            if k.module.name == '%abc':
                continue
            for f in list(k.methods.values()) + list(k.setters.values()):
                if f.kind == 'static' or c.find(f.name) is not f and f.name not in k.setters:
                    continue
                if f.kind == 'class':
                    continue
                w = Walk(F, f, c)
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') for x in ast.walk(f.node)) or any(isinstance(x, ast.Try) for x in ast.walk(f.node)):
                    continue
                for x in nodes(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == w.me:
                        r.checked += 1
                        if x.attr not in have:
                            by = [q for q in c.mro() if '__init__' in F.own(q).get(x.attr, ())]
                            what = f'the constructor of {by[0].name} is not run' if by else f'nothing sets {x.attr}'
                            v = viol('initialised', _at(c.module, c.name), x, f'{c.name}: {what}')
                            v['text'] += f' (for example {f.qual} reads {x.attr})'
                            r.violations.append(v)
    seen, out = set(), []
    for v in r.violations:
        if v['key'] not in seen:
            seen.add(v['key'])
            out.append(v)
    r.violations = out
    r.samples.append(f'{r.checked} reads of the object by its methods')
    return r


def calls(p):
    """the arguments of every call with a known target bind to its parameters"""
    r = RuleResult()
    F = Finder(p)
    for f, c in bodies(F):
        w = Walk(F, f, c)
        for x in nodes(f.node):
            if not isinstance(x, ast.Call):
                continue
            sig, what = None, ''
            g = x.func
            if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Call) and isinstance(g.value.func, ast.Name) and g.value.func.id == 'super' and c is not None:
                # the next implementation, for every class the method runs in
                why = []
                for k in [q for q in F.classes if c in q.mro() and not F.duties(q)] or [c]:
                    mro = k.mro()
                    nxt = [q.methods[g.attr] for q in mro[mro.index(c) + 1:] if g.attr in q.methods]
                    if g.value.args:
                        continue
                    if not nxt:
                        if F.closed(k) and g.attr not in OBJECT and not any(g.attr in F.own(q) for q in mro):
                            why.append(f'no {g.attr} above {c.name}')
                        elif g.attr == '__init__' and F.closed(k) and (x.args or x.keywords) and not any(isinstance(a, ast.Starred) for a in x.args) and not any(q.arg is None for q in x.keywords) and not any(isinstance(b, str) and b.startswith('typing.') for b in k.ext_bases()):
                            why.append('arguments for an object without a constructor')
                        continue
                    t = nxt[0]
                    if t.decorators or t.kind == 'property':
                        continue
                    m = mismatch(x, params(t, t.kind != 'static'))
                    if m:
                        why.append(f'{t.qual}: {m}')
                r.checked += 1
                if why:
                    r.violations.append(viol('call', f, x, f'super().{g.attr}: {why[0]}'))
                continue
            d = _dotted(g)
            if d and d.split('.')[0] not in w.locals:
                q = p.resolve_dotted(f.module, d)
                if isinstance(q, str) and q.split('.')[0] in STD:
                    m = unbound(q, x)
                    r.checked += 1
                    if m:
                        r.violations.append(viol('call', f, x, f'{q}: {m}'))
                    continue
            t = w.target(g)
            if isinstance(t, ClassInfo):
                if t.is_enum:
                    continue
                if t is c and isinstance(g, ast.Name) and g.id == w.mecls:
                    sigs = [signature(F, k) for k in F.classes if c in k.mro() and not F.duties(k)]
                    if not sigs or None in sigs:
                        continue
                    ms = [mismatch(x, s) for s in sigs]
                    r.checked += 1
                    if all(ms):
                        r.violations.append(viol('call', f, x, f'{t.name}: {ms[0]}'))
                    continue
                sig, what = signature(F, t), t.name
            elif isinstance(t, FuncInfo):
                if t.decorators:
                    continue
                bound = t.cls is not None and t.kind in ('method', 'class')
                if t.cls is not None and t.kind == 'method' and isinstance(g, ast.Attribute) and w.klass(g.value) is not None:
                    bound = False       # called through the class, with the object given
                if t.cls is not None and t.kind == 'method' and isinstance(g, ast.Attribute) and w.klass(g.value) is None:
                    # the implementations the object may have
                    ts = w.type(g.value) or []
                    if len(ts) == 1:
                        alts = {k.find(g.attr) for k in F.classes if ts[0] in k.mro() and not F.duties(k) and k.find(g.attr) is not None} or {t}
                        if any(a.decorators or a.kind == 'property' for a in alts):
                            continue
                        ms = [mismatch(x, params(a, a.kind != 'static')) for a in alts]
                        r.checked += 1
                        if all(ms):
                            r.violations.append(viol('call', f, x, f'{t.qual}: {ms[0]}'))
                        continue
                sig, what = params(t, bound), t.qual
            if sig is None:
                continue
            r.checked += 1
            m = mismatch(x, sig)
            if m:
                r.violations.append(viol('call', f, x, f'{what}: {m}'))
    r.samples.append(f'{r.checked} calls')
    return r


def ends(p):
    """exceptions are raised where they are made, no broad handler swallows them, and a function with a declared result can return one"""
    r = RuleResult()
    F = Finder(p)
    exc = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
    for f, c in bodies(F):
        r.checked += 1
        w = Walk(F, f, c)
        for x in nodes(f.node):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id in exc and w.name(x.value.func.id) is None and x.value.func.id not in w.locals:
                r.violations.append(viol('ends', f, x, f'{x.value.func.id} is made but not raised'))
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Name) and x.value.id in exc and x.value.id not in w.locals:
                r.violations.append(viol('ends', f, x, f'{x.value.id} is named but not raised'))
            if isinstance(x, ast.Raise) and isinstance(x.exc, (ast.Name, ast.Call)) and (_dotted(x.exc) or _dotted(getattr(x.exc, 'func', x.exc))) == 'NotImplemented':
                r.violations.append(viol('ends', f, x, 'NotImplemented is not an exception'))
            if isinstance(x, ast.ExceptHandler) and (x.type is None or _dotted(x.type) in ('Exception', 'BaseException')) and all(isinstance(s, (ast.Pass, ast.Continue)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in x.body):
                r.violations.append(viol('ends', f, x, 'every exception is swallowed'))
        n = f.node
        if n.returns is not None and not (isinstance(n.returns, ast.Constant) and n.returns.value is None) and 'None' not in ast.unparse(n.returns) and 'Optional' not in ast.unparse(n.returns) and ast.unparse(n.returns) not in ('NoReturn', 'typing.NoReturn'):
            if any((_dotted(d) or '').split('.')[-1] == 'abstractmethod' for d in n.decorator_list):
                continue
            own = [y for y in own_nodes(n)]
            stub = all(isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and all(isinstance(t, ast.Name) for t in s.targets) for s in n.body)
            if not stub and not any(isinstance(y, ast.Return) and y.value is not None or isinstance(y, (ast.Raise, ast.Yield, ast.YieldFrom)) for y in own):
                r.violations.append(viol('ends', f, n, 'a result is declared and none is returned'))
    r.samples.append(f'{r.checked} functions')
    return r


def own_nodes(fn):
    """nodes of a function outside the functions nested in it"""
    stack = list(fn.body)
    while stack:
        x = stack.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            stack += list(ast.iter_child_nodes(x))


ALL = (names, imports, implementations, attributes, initialised, calls, ends)
