"""Loads the repository's source (ast only), resolves imports, classes, base classes and enumerations."""
import ast
import hashlib
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'fixedIncome'


ABC_SRC = """
from abc import abstractmethod

class Callable:
    @abstractmethod
    def __call__(self, *args, **kwargs): ...

class Sized:
    @abstractmethod
    def __len__(self): ...

class Container:
    @abstractmethod
    def __contains__(self, value): ...

class Iterable:
    @abstractmethod
    def __iter__(self): ...

class Iterator(Iterable):
    @abstractmethod
    def __next__(self): ...
    def __iter__(self):
        return self

class Collection(Sized, Iterable, Container):
    pass

class Sequence(Collection):
    @abstractmethod
    def __getitem__(self, index): ...
    def __iter__(self):
        return (self[i] for i in range(len(self)))
    def __contains__(self, value):
        for v in self:
            if v is value or v == value:
                return True
        return False
    def __reversed__(self):
        return (self[i] for i in reversed(range(len(self))))
    def index(self, value, start=0, stop=None):
        i = 0
        for v in self:
            if v is value or v == value:
                return i
            i += 1
        raise ValueError
    def count(self, value):
        return sum(1 for v in self if v is value or v == value)

class MutableSequence(Sequence):
    @abstractmethod
    def __setitem__(self, index, value): ...
    @abstractmethod
    def __delitem__(self, index): ...
    @abstractmethod
    def insert(self, index, value): ...
    def append(self, value):
        self.insert(len(self), value)
    def clear(self):
        n = len(self)
        for _ in range(n):
            self.pop()
    def reverse(self):
        n = len(self)
        for i in range(n // 2):
            self[i], self[n - i - 1] = self[n - i - 1], self[i]
    def extend(self, values):
        if values is self:
            values = list(values)
        for v in values:
            self.append(v)
    def pop(self, index=-1):
        v = self[index]
        del self[index]
        return v
    def remove(self, value):
        del self[self.index(value)]
    def __iadd__(self, values):
        self.extend(values)
        return self

class Mapping(Collection):
    @abstractmethod
    def __getitem__(self, key): ...

class Set(Collection):
    pass
"""
ABC = {}


def _memo(d):
    return (_dotted(d.func if isinstance(d, ast.Call) else d) or '').split('.')[-1] in ('lru_cache', 'cache')


class FuncInfo:
    __slots__ = ('node', 'module', 'cls', 'name', 'kind', 'decorators', 'qual', 'src', 'kept', 'memo')

    def __init__(self, node, module, cls, name, kind, decorators):
        self.node, self.module, self.cls, self.name, self.kind, self.decorators = node, module, cls, name, kind, decorators
        self.qual = (cls.name + '.' if cls else '') + name
        self.memo = False       # answers are remembered by functools.lru_cache or cache

    @property
    def where(self):
        return f'{self.module.relpath}:{self.node.lineno} {self.qual}'


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.key = module.name + ':' + node.name
        self.methods = {}     # name -> FuncInfo (kind: method/static/class/property)
        self.setters = {}
        self.attrs = {}       # class level name -> value expr
        self.anns = []        # ordered annotated fields (name, default expr or None)
        self.bases = []       # resolved: ClassInfo or dotted string
        self.is_dataclass = False
        self.dc_opts = {}
        self._mro = None

    @property
    def is_enum(self):
        return any((b in ('enum.Enum', 'enum.IntEnum')) if isinstance(b, str) else b.is_enum for b in self.bases)

    @property
    def is_namedtuple(self):
        return any(b in ('typing.NamedTuple',) if isinstance(b, str) else b.is_namedtuple for b in self.bases)

    def mro(self):
        if self._mro is None:
            seqs = [b.mro() for b in self.bases if isinstance(b, ClassInfo)] + [[b for b in self.bases if isinstance(b, ClassInfo)]]
            out = [self]
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            for b in self.bases:
                if isinstance(b, str) and b in ABC:
                    out += [x for x in ABC[b].mro() if x not in out]
            self._mro = out
        return self._mro

    def ext_bases(self):
        r = []
        for c in self.mro():
            r += [b for b in c.bases if isinstance(b, str)]
        return r

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
            if name in c.methods:
                return None
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
            if name in c.methods:
                return None
        return None

    def is_sub(self, other):
        return other in self.mro()

    def fields(self):
        """dataclass/namedtuple fields in order with default expr and defining module"""
        out = {}
        for c in reversed(self.mro()):
            if c.is_dataclass or c.is_namedtuple:
                for n, d in c.anns:
                    out[n] = (d, c.module)
        return [(n, d, m) for n, (d, m) in out.items()]

    @property
    def is_record(self):
        return self.is_dataclass or self.is_namedtuple or any(b.is_record for b in self.bases if isinstance(b, ClassInfo))


class Module:
    def __init__(self, name, path, relpath, src):
        self.name, self.path, self.relpath, self.src = name, path, relpath, src
        self.tree = ast.parse(src, path)
        self.imports = {}     # local name -> ('mod', dotted) | ('from', dotted, name)
        self.functions = {}
        self.classes = {}
        self.assigns = {}     # module constant name -> list of value expr (last wins)
        self.star = []
        self.is_main_import = {}
        self._stores = self._dirty = None

    def _top(self):
        """names the statements of the module itself bind, and those they rebind or alter in ways not followed here"""
        self._stores, self._dirty = set(), set()

        def target(t, dirty):
            if isinstance(t, ast.Name):
                self._stores.add(t.id)
                if dirty:
                    self._dirty.add(t.id)
            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                while isinstance(t, (ast.Subscript, ast.Attribute)):
                    t = t.value
                target(t, True)
            elif isinstance(t, (ast.Tuple, ast.List, ast.Starred)):
                for x in t.elts if not isinstance(t, ast.Starred) else [t.value]:
                    target(x, dirty or isinstance(x, ast.Starred))

        def go(body, inside):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) or isinstance(s, ast.If) and _is_main_guard(s):
                    continue
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        target(t, inside)
                elif isinstance(s, ast.AugAssign):
                    target(s.target, True)
                elif isinstance(s, ast.AnnAssign):
                    target(s.target, inside)
                elif isinstance(s, (ast.For, ast.AsyncFor)):
                    target(s.target, True)
                elif isinstance(s, (ast.With, ast.AsyncWith)):
                    for w in s.items:
                        if w.optional_vars is not None:
                            target(w.optional_vars, True)
                elif isinstance(s, ast.Delete):
                    for t in s.targets:
                        target(t, True)
                loop = isinstance(s, (ast.For, ast.While))
                for f in ('body', 'orelse', 'finalbody'):
                    go(getattr(s, f, None) or [], inside or loop)
                for h in getattr(s, 'handlers', ()):
                    go(h.body, True)
                for x in ast.walk(s) if not hasattr(s, 'body') else ():
                    if isinstance(x, ast.NamedExpr):
                        target(x.target, True)
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and isinstance(s, ast.Expr):
                        self._dirty.add(x.func.value.id)
        go(self.tree.body, False)
        self._dirty -= set(self.imports)

    def binds(self, name):
        if self._stores is None:
            self._top()
        return name in self._stores

    def altered(self, name):
        if self._dirty is None:
            self._top()
        return name in self._dirty


def _dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = _dotted(node.value)
        return b + '.' + node.attr if b else None
    return None


def _assign(names, t, v):
    """bindings of an assignment, item by item where the target is a tuple"""
    if isinstance(t, ast.Name):
        names[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts):
        same = isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in v.elts)
        for k, x in enumerate(t.elts):
            _assign(names, x, v.elts[k] if same else ast.copy_location(ast.Subscript(v, ast.copy_location(ast.Constant(k), v), ast.Load()), v))


def _is_main_guard(node):
    return isinstance(node, ast.If) and isinstance(node.test, ast.Compare) and isinstance(node.test.left, ast.Name) \
        and node.test.left.id == '__name__'


class Project:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.errors = []
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise SystemExit('analysis-broken: package directory missing: ' + base)
        h = hashlib.sha256()
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            if os.sep + 'tests' in dp[len(self.root):]:
                continue
            for f in sorted(fn):
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.root)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    src = open(p, encoding='utf-8').read()
                    h.update(rel.encode() + b'\0' + src.encode())
                    try:
                        self.modules[name] = Module(name, p, rel, src)
                    except SyntaxError as e:
                        raise SystemExit(f'analysis-broken: {rel} does not parse: {e}')
        self.digest = h.hexdigest()
        for m in self.modules.values():
            self._scan(m, m.tree.body)
        for m in self.modules.values():
            for c in m.classes.values():
                self._bases(c)
        ABC.clear()
        m = self.add_module('%abc', ABC_SRC, '<collections.abc>')
        for n, c in m.classes.items():
            ABC['collections.abc.' + n] = c
            if n in ('Callable', 'Iterable', 'Collection', 'Sequence', 'MutableSequence', 'Iterator'):
                ABC['typing.' + n] = c

    def add_module(self, name, src, relpath):
        m = Module(name, relpath, relpath, src)
        self.modules[name] = m
        self._scan(m, m.tree.body)
        for c in m.classes.values():
            self._bases(c)
        return m

    def _scan(self, m, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = ('mod', a.name)
                    else:
                        m.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ''
                if st.level:
                    parts = m.name.split('.')
                    if not m.path.endswith('__init__.py'):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (st.level - 1)]
                    mod = '.'.join(parts + ([mod] if mod else []))
                for a in st.names:
                    if a.name == '*':
                        m.star.append(mod)
                    else:
                        m.imports[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                plain = [d for d in st.decorator_list if not _memo(d)]
                m.functions[st.name] = FuncInfo(st, m, None, st.name, 'function', plain)
                m.functions[st.name].memo = len(plain) < len(st.decorator_list)
            elif isinstance(st, ast.ClassDef):
                m.classes[st.name] = self._class(st, m)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    _assign(m.assigns, t, st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.assigns[st.target.id] = st.value
            elif isinstance(st, ast.If) and not _is_main_guard(st):
                if isinstance(st.test, ast.Name) and st.test.id == 'TYPE_CHECKING' or _dotted(st.test) == 'typing.TYPE_CHECKING':
                    self._scan(m, st.orelse)
                else:
                    self._scan(m, st.body)
                    self._scan(m, st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(m, st.body)

    def _class(self, node, m):
        c = ClassInfo(node, m)
        for d in node.decorator_list:
            dn = _dotted(d.func) if isinstance(d, ast.Call) else _dotted(d)
            if dn and dn.split('.')[-1] == 'dataclass':
                c.is_dataclass = True
                if isinstance(d, ast.Call):
                    c.dc_opts = {k.arg: k.value for k in d.keywords}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = 'method'
                deco = []
                setter = False
                for d in st.decorator_list:
                    dn = _dotted(d.func) if isinstance(d, ast.Call) else _dotted(d)
                    last = (dn or '').split('.')[-1]
                    if last == 'staticmethod':
                        kind = 'static'
                    elif last == 'classmethod':
                        kind = 'class'
                    elif last in ('property', 'cached_property'):
                        kind = 'property'
                    elif last == 'setter':
                        setter = True
                    elif last in ('abstractmethod', 'override', 'overload', 'wraps'):
                        pass
                    elif _memo(d):
                        pass
                    else:
                        deco.append(d)
                fi = FuncInfo(st, m, c, st.name, kind, deco)
                fi.memo = any(_memo(d) for d in st.decorator_list)
                fi.kept = any((_dotted(d) or '').split('.')[-1] == 'cached_property' for d in st.decorator_list)
                if setter:
                    c.setters[st.name] = fi
                else:
                    c.methods[st.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    _assign(c.attrs, t, st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.anns.append((st.target.id, st.value))
                if st.value is not None:
                    c.attrs[st.target.id] = st.value
        return c

    def _bases(self, c):
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            dn = _dotted(b)
            r = self.resolve_dotted(c.module, dn) if dn else None
            if isinstance(r, ClassInfo):
                c.bases.append(r)
            elif isinstance(r, str):
                c.bases.append(r)
            elif dn:
                c.bases.append(dn)

    # resolution: returns ClassInfo | FuncInfo | ('const', Module, name) | ('mod', Module) | 'external.dotted' | None
    def resolve_name(self, m, name, _depth=0):
        if _depth > 20:
            return None
        if name in m.classes:
            return m.classes[name]
        if name in m.functions:
            return m.functions[name]
        if name in m.assigns:
            return ('const', m, name)
        if name in m.imports:
            i = m.imports[name]
            if i[0] == 'mod':
                if i[1] in self.modules:
                    return ('mod', self.modules[i[1]])
                return i[1]
            mod, nm = i[1], i[2]
            if mod in self.modules:
                r = self.resolve_name(self.modules[mod], nm, _depth + 1)
                if r is None and mod + '.' + nm in self.modules:
                    return ('mod', self.modules[mod + '.' + nm])
                return r
            if mod + '.' + nm in self.modules:
                return ('mod', self.modules[mod + '.' + nm])
            if mod.split('.')[0] == PKG:
                return None
            return mod + '.' + nm
        for s in m.star:
            if s in self.modules:
                r = self.resolve_name(self.modules[s], name, _depth + 1)
                if r is not None:
                    return r
        return None

    def resolve_dotted(self, m, dn):
        parts = dn.split('.')
        r = self.resolve_name(m, parts[0])
        for p in parts[1:]:
            if isinstance(r, str):
                r = r + '.' + p
            elif isinstance(r, tuple) and r[0] == 'mod':
                sub = r[1].name + '.' + p
                r = self.resolve_name(r[1], p) or (('mod', self.modules[sub]) if sub in self.modules else None)
            else:
                return None
        return r

    def find_class(self, name):
        hits = [c for m in self.modules.values() for c in m.classes.values() if c.name == name and m.name.startswith(PKG)]
        return hits[0] if len(hits) >= 1 else None

    def find_function(self, qual):
        """'Class.method' or 'function' or 'module:function'"""
        if '.' in qual:
            cn, fn = qual.split('.', 1)
            c = self.find_class(cn)
            return c.find(fn) if c else None
        hits = [m.functions[qual] for m in self.modules.values() if qual in m.functions]
        return hits[0] if hits else None
