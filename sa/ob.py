"""Obligations: what a property requires of an entry point, written as a pair of small Python texts over typed opaque inputs.
Both texts are only ever parsed and value-numbered, never executed."""
import textwrap


class Ob:
    def __init__(self, spec, name, args, impl, ref, pre=(), at=(), wrong=None, opaque=(), rule='value', tier='quick', leaves=3000, budget=None):
        self.spec, self.name, self.args, self.impl, self.ref = spec, name, args, impl, ref
        self.pre, self.at, self.wrong, self.opaque, self.rule, self.tier, self.leaves = list(pre), tuple(at), wrong, tuple(opaque), rule, tier, leaves
        self.budget = budget or 600000


class Spec:
    def __init__(self, pid, imports='', helpers=''):
        self.pid, self.imports, self.helpers = pid, textwrap.dedent(imports), textwrap.dedent(helpers)
        self.obs = []
        self.rules = []      # classical rules: callables(project) -> RuleResult

    def eq(self, name, args, impl, ref, **kw):
        if isinstance(kw.get('at'), str):
            kw['at'] = (kw['at'],)
        self.obs.append(Ob(self, name, args, textwrap.dedent(impl), textwrap.dedent(ref), **kw))

    def rule(self, fn):
        self.rules.append(fn)
        return fn


def body(text):
    text = text.strip('\n')
    try:
        import ast
        ast.parse(text.strip(), mode='eval')
        return '    return (' + text.strip() + ')\n'
    except SyntaxError:
        return textwrap.indent(textwrap.dedent(text), '    ') + '\n'


def parse_args(s):
    """'a: date, b: seq:date' -> [(a, type)]"""
    out = []
    depth = 0
    cur = ''
    for ch in s:
        if ch in '[(':
            depth += 1
        if ch in '])':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    res = []
    for x in out:
        n, t = x.split(':', 1)
        res.append((n.strip(), t.strip()))
    return res
